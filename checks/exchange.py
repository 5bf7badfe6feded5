"""Exchange protocols between cluster nodes: buffering of early messages, completion barrier,
fan-out / ring forwarding and accounting.  Used by P01..P04."""
from q import *
import tab

PROTO_METHODS = {"start", "received", "sent", "is_running", "resolve_buffer"}


def proto_types(p):
    """crate types implementing the exchange-protocol interface"""
    ms = {}
    for b in p.bodies.values():
        if b.get("self_ty") and not b.get("trait") and "promoted[" not in b["key"]:
            ms.setdefault(strip_generics(b["self_ty"]), {})[b["name"]] = b
    return {t: m for t, m in ms.items() if PROTO_METHODS <= set(m)}


def proto_fields(p):
    """{message type: (field path in Training, protocol type)}"""
    pts = proto_types(p)
    tr = adt_by_name(p, "Training")
    out = {}
    if tr is None:
        return out
    for path, ty in field_types(p, tr["path"]):
        st = strip_generics(ty)
        if st in pts:
            m = re.search(r"<(.*)>$", ty)
            out[base(m.group(1))] = (path, st)
    return out


def proto_opaque(p):
    keys = {b["key"] for m in proto_types(p).values() for n, b in m.items() if n in PROTO_METHODS}
    return lambda b: b["key"] in keys


class Roles:
    pass


def proto_roles(c, t, m):
    """derive the roles of a protocol type's fields from its methods and check its semantics.
    returns Roles or None"""
    R = Roles()
    E = c.run(m["start"])
    arg = sym(m["start"]["locals"][2][1] or "arg2")
    ch = changed_paths(self_final(E), SELF)
    tot = [k for k, v in ch.items() if v is arg]
    c.ob("start-sets-total", t, len(tot) == 1, "%s::start does not store the expected number of messages" % t)
    if not tot:
        return None
    R.total = tot[0]
    R.start_extra = {k: v for k, v in ch.items() if k != R.total}
    E = c.run(m["sent"])
    ch = changed_paths(self_final(E), SELF)
    inc = [k for k, v in ch.items() if v is add(proj(SELF, k), const(1))]
    c.ob("sent-counts-once", t, len(ch) == 1 and len(inc) == 1, "%s::sent must count exactly one sent message (changes: %s)" % (t, {".".join(k): show(v, 4) for k, v in ch.items()}))
    if not inc:
        return None
    R.sent = inc[0]
    E = c.run(m["is_running"])
    run = asb(E.ret)
    c.ob("is_running-pure", t, not changed_paths(self_final(E), SELF), "%s::is_running changes state" % t)
    R.run = run
    E = c.run(m["received"])
    msg = sym(m["received"]["locals"][2][1] or "arg2")
    fin = self_final(E)
    # while the phase runs: counted, nothing else; returns true
    f1 = changed_paths(restrict(fin, run), SELF)
    rec = [k for k, v in f1.items() if v is add(proj(SELF, k), const(1))]
    c.ob("received-counts-once", t, len(f1) == 1 and len(rec) == 1, "%s::received must count the message exactly once while the phase runs (changes: %s)" % (t, {".".join(k): show(v, 4) for k, v in f1.items()}))
    if not rec:
        return None
    R.received = rec[0]
    ret = asb(E.ret)
    c.ob("received-answer", t, ret == run, "%s::received must answer true exactly while the phase is running, got %s" % (t, showb(ret)))
    f0 = changed_paths(restrict(fin, bnot(run)), SELF)
    buf = [k for k, v in f0.items() if v.op == "mut" and v.a[0].split("::")[-1] in ("push", "push_back", "insert", "extend") and contains(v, lambda x: x is msg)]
    c.ob("early-message-kept", t, len(f0) == 1 and len(buf) == 1, "%s::received must keep a message that arrives while the phase is not running (changes then: %s)" % (t, {".".join(k): show(v, 4) for k, v in f0.items()}))
    if not buf:
        return None
    R.buffer = buf[0]
    # is_running <=> some message outstanding in either direction
    r, s, n = (proj(SELF, x) for x in (R.received, R.sent, R.total))
    spec = bor(cmp("lt", r, n, "usize"), cmp("lt", s, n, "usize"))
    c.ob("running-iff-outstanding", t, run == spec, "%s::is_running must hold exactly while received < total or sent < total; it is %s" % (t, showb(run)))
    for k, v in R.start_extra.items():
        okk = k != R.buffer and v.op == "num" and v.a[0] == 0 and k in (R.received, R.sent)
        c.ob("start-keeps-buffer", "%s.%s" % (t, ".".join(k)), okk, "%s::start discards %s" % (t, ".".join(k)))
    # resolve
    E = c.run(m["resolve_buffer"])
    okr, why = drains(E, proj(SELF, R.buffer), R.buffer)
    c.ob("buffer-resent", t, okr, "%s::resolve_buffer must hand every kept message back exactly once: %s" % (t, why))
    return R


def drains(E, buf, bufpath, self_=SELF, sendpred=is_send, when=1):
    """E re-sends every element of `buf` exactly once and leaves it empty"""
    ss = [e for e in E.events if sendpred(e) and band(e.cond, when) != 0]
    under = lambda e: e.cond if when == 1 else asb(restrict(boolt(e.cond), when))
    if not ss:
        return False, "nothing is sent"
    ss = [e for e in ss if contains(e.args[1], lambda x: x is buf or (x.op == "loopvar" and E.loopinfo.get(x, [None])[0] is buf) or is_default_of(E, x, buf))]
    if not ss:
        return False, "no kept message is sent"
    if len(ss) != 1:
        return False, "kept messages are sent %d times" % len(ss)
    e = ss[0]
    if not e.loops:
        return False, "at most one kept message is sent"
    if len(e.loops) > 1:
        return False, "nested iteration"
    src = e.loops[-1]
    pl = e.args[1]
    fin = proj(E.final.get(("O", self_), self_), bufpath)
    # (a) repeated removal
    rem = find(pl, lambda x: x.op == "call" and x.a[0].split("::")[-1] in ("remove", "pop", "pop_front", "pop_back", "swap_remove") and x.a[1].op == "loopvar" and E.loopinfo.get(x.a[1], [None])[0] is buf)
    if rem:
        r = rem[0]
        nm = r.a[0].split("::")[-1]
        lv = r.a[1]
        step = E.loopinfo[lv][1]
        if step is None or not (step.op == "mut" and step.a[0] == r.a[0] and step.a[2] is lv):
            if not (step is not None and step.op == "ite"):
                return False, "the buffer is changed otherwise inside the loop (%s)" % show(step, 4)
        if nm in ("remove", "swap_remove"):
            if not (r.a[2].op == "num" and r.a[2].a[0] == 0) and not is_last_index(r.a[2], lv):
                return False, "removal index %s skips elements" % show(r.a[2], 4)
        if src.op == "while":
            # while let Some(m) = pop()
            g = under(e)
            want = is_variant(r, "Some")
            empt = [x for x in bsupport(g)]
            if nm.startswith("pop") or nm == "remove":
                if g != want and not guard_nonempty(g, lv):
                    return False, "loop guard %s" % showb(g)
            return True, ""
        if src.op == "adt" and src.a[0].endswith("Range"):
            d = dict(src.a[2])
            n = sub(d["end"], d["start"])
            if not (n.op == "call" and n.a[0].split("::")[-1] == "len" and n.a[1] is buf):
                return False, "iterates %s times instead of once per kept message" % show(n, 5)
            g = under(e)
            if g != 1 and g != is_variant(r, "Some"):
                return False, "conditional resend (%s)" % showb(g)
            return True, ""
        return False, "unrecognised iteration %s" % show(src, 4)
    # (b) iteration over the (taken / drained) buffer
    el = find(pl, lambda x: x.op == "elem")
    if under(e) != 1:
        return False, "conditional resend (%s)" % showb(e.cond)
    s = src
    while s.op in ("call", "collect", "mut", "seq") and s is not buf:
        nm = s.a[0].split("::")[-1] if s.op == "call" else s.op
        if nm in ("drain", "rev", "collect", "take", "into_iter", "iter", "split_off", "seq"):
            if nm == "drain" and len(s.a) > 2:
                rg = s.a[2]
                if not (rg.op == "adt" and rg.a[0].endswith("RangeFull") or (rg.op in ("const", "lit") and "RangeFull" in str(rg.a[0]))):
                    z = dict(rg.a[2]) if rg.op == "adt" else {}
                    if not ("start" in z and z["start"].op == "num" and z["start"].a[0] == 0 and ("end" not in z)):
                        return False, "drains only %s" % show(rg, 4)
            s = s.a[1] if s.op == "call" else s.a[0]
        else:
            break
    if s is not buf:
        return False, "iterates over %s" % show(src, 4)
    if fin is buf:
        return False, "the kept messages stay in the buffer and would be resent again"
    return True, ""


def is_default_of(E, x, buf):
    return False


def is_last_index(ix, lv):
    return ix is sub(mk("call", "std::vec::Vec::len", lv), const(1))


def guard_nonempty(g, lv):
    for a in bsupport(g):
        if a.op == "lt0" or a.op == "call":
            if contains(a, lambda x: x is lv):
                return True
    return False


# ---------------------------------------------------------------- handler level
def handler_for(c, msg):
    return c.p.handler("Training", msg)


def gate_formulas(E, path, R, s=SELF):
    """(running before the message, running after it has been counted)"""
    base_ = proj(s, path)
    r, sn, n = (proj(base_, x) for x in (R.received, R.sent, R.total))
    r0 = bor(cmp("lt", r, n, "usize"), cmp("lt", sn, n, "usize"))
    r1 = bor(cmp("lt", add(r, const(1)), n, "usize"), cmp("lt", sn, n, "usize"))
    return r0, r1


def all_roles(c):
    pts = proto_types(c.p)
    c.floor("exchange protocol types", len(pts), 1)
    R = {}
    for t, m in sorted(pts.items()):
        R[t] = proto_roles(c, t, m)
    pf = proto_fields(c.p)
    c.floor("exchange protocol instances in the coordinator", len(pf), 10)
    return R, pf


# ================================================================ P01
from cluster import *  # noqa


def training_handlers(c):
    return {m: b for (a, m), b in c.p.handlers().items() if a == "Training" and m != "RemoteWrapper"}


def proto_events(c):
    """protocol calls over all coordinator handlers, one handler turn each:
    [(handler msg, E, event, method, path)] ; path = field path of the protocol instance"""
    op = proto_opaque(c.p)
    pts = proto_types(c.p)
    out = []
    for m, b in sorted(training_handlers(c).items()):
        E = c.run(b, op, "proto")
        for e in E.events:
            if e.kind == "call" and e.name in PROTO_METHODS and any(e.fn.startswith(t) or strip_generics(e.fn.rsplit("::", 1)[0]) == t for t in pts):
                r, ks = place_of(e.raw[0])
                out.append((m, E, e, e.name, tuple(ks) if r is SELF else None))
    return out


def self_path(t):
    ks = []
    while t.op == "field":
        ks.append(t.a[1])
        t = t.a[0]
    return tuple(reversed(ks)) if t is SELF else None


def first_point(c, cl):
    """the neighbour's first point is kept while the own points are not segmented yet, and taken up afterwards"""
    op = proto_opaque(c.p)
    st = "SendFirstPointMessage"
    hb = c.need(c.p.handler("Training", st), "handler for " + st)
    if not hb:
        return
    msg = sym(hb["locals"][2][1] or "msg")
    E = c.run(hb, op, "proto")
    fin = self_final(E)
    buf, keep = None, 0
    for k, v in changed_paths(fin, SELF).items():
        for cd, x in leaves(v):
            y = None
            if x.op == "adt" and x.a[1] == "Some":
                y = dict(x.a[2]).get("0")
            elif x.op == "mut" and x.a[0].split("::")[-1] in ("push", "push_back") and len(x.a) == 4:
                y = x.a[3]
            if y is None:
                continue
            if y is msg or (y.op == "adt" and y.a[2] and all(z is proj(msg, (f,)) for f, z in y.a[2])):
                buf, keep = k, bor(keep, cd)
    if not c.ob("early-message-kept", st, buf is not None and keep not in (0, 1), "the first point of the next node may come before the own points are segmented; it must be kept until then"):
        return
    ch = changed_paths(restrict(fin, keep), SELF)
    ch = {k: v for k, v in ch.items() if not (v.op == "bool" and band(asb(v), keep) == band(asb(proj(SELF, k)), keep))}
    c.ob("early-message-no-effect", st, set(ch) <= {buf}, "an early first point changes %s" % sorted(".".join(map(str, k)) for k in ch if k != buf))
    snd = [e for e in E.events if is_send(e) and band(e.cond, keep) != 0]
    c.ob("early-message-no-send", st, not snd, "an early first point triggers %s" % [msg_type(e) for e in snd], where_of(snd[0]) if snd else None)
    c.ob("kept-by-state", st, all(not contains(a, lambda x: x is msg) for a in bsupport(keep)), "whether a first point is kept must depend on the node's own progress")
    flds = {x for a in bsupport(keep) for x in subterms(a) if x.op == "field" and self_path(x)}
    notlast = bnot(cmp("eq", cl.own, cl.peers, "usize"))
    for hn, when in (("RotationDoneMessage", band(cl.has, notlast, bnot(asb(proj(SELF, ("parameters", "self_correction")))))), ("TransitionCountMessage", None)):
        b = c.need(c.p.handler("Training", hn), "handler for " + hn)
        if not b:
            continue
        E2 = c.run(b, op, "proto")
        f2 = self_final(E2)
        after = asb(subst(boolt(keep), {x: proj(f2, self_path(x)) for x in flds}))
        takes = band(keep, bnot(after), cl.facts)
        res = [e for e in E2.events if is_send(e) and not e.loops and cl.target(e.args[0])[0] == "self" and e.args[1] is proj(proj(SELF, buf), ("Some.0",))]
        cov = 0
        for e in res:
            cov = bor(cov, e.cond)
        has = is_variant(proj(SELF, buf), "Some")
        okd = False
        if not res:
            okd, _ = drains(E2, proj(SELF, buf), buf, when=takes)
        c.ob("first-point-wanted", hn, takes != 0 and (when is None or not band(no_panic(band(when, cl.facts, keep)), after)), "once the own points are segmented the next node's first point must be processed; it is still only kept under %s" % showb(band(no_panic(band(when or 1, cl.facts)), after))[:200])
        c.ob("start-then-resolve", "%s in %s" % (st, hn), okd or (bool(res) and not band(no_panic(band(takes, has)), bnot(cov))), "a kept first point must be taken up again once the own points are segmented", where_of(res[0]) if res else None)


def p01(c):
    R, pf = all_roles(c)
    cl = Cluster(c)
    # one handler turn on a message whose phase is not running: kept, and nothing else happens
    for msg, (path, t) in sorted(pf.items()):
        b = c.need(handler_for(c, msg), "handler for " + msg)
        if not b or not R[t]:
            continue
        E = c.run(b)
        r0, r1 = gate_formulas(E, path, R[t])
        nr = bnot(r0)
        fin = restrict(self_final(E), nr)
        ch = changed_paths(fin, SELF)
        bufp = tuple(path) + R[t].buffer
        msg_t = sym(b["locals"][2][1] or "msg")
        kept = bufp in ch and ch[bufp].op == "mut" and ch[bufp].a[0].split("::")[-1] in ("push", "push_back") and ch[bufp].a[3] is msg_t and ch[bufp].a[2] is proj(SELF, bufp)
        c.ob("early-message-kept", msg, kept, "a %s that arrives before its phase starts is not kept unchanged in %s" % (msg, ".".join(bufp)))
        others = {".".join(k): show(v, 4) for k, v in ch.items() if k != bufp}
        c.ob("early-message-no-effect", msg, not others, "a %s that arrives before its phase starts changes %s" % (msg, others))
        snd = [e for e in E.events if is_send(e) and band(e.cond, nr) != 0]
        c.ob("early-message-no-send", msg, not snd, "a %s that arrives before its phase starts triggers %s" % (msg, [msg_type(e) for e in snd]), where_of(snd[0]) if snd else None)
        pan = [e for e in E.events if e.kind in ("panic", "unwrap") and band(e.cond, nr) != 0]
        c.ob("early-message-no-panic", msg, not pan, "a %s that arrives before its phase starts can panic" % msg, where_of(pan[0]) if pan else None)
    # every phase start hands the kept messages back, to this coordinator, in the same turn
    ev = proto_events(c)
    by = {tuple(p): m for m, (p, t) in pf.items()}
    started = set()
    for m, E, e, name, path in ev:
        if name != "start":
            continue
        if not c.ob("start-known-place", "%s in %s" % (".".join(path or ("?",)), m), path in by, "start of an unknown protocol instance", where_of(e)):
            continue
        started.add(path)
        rs = [x for mm, EE, x, n2, p2 in ev if EE is E and n2 == "resolve_buffer" and p2 == path and x.loops == e.loops]
        cov = 0
        for x in rs:
            tg = cl.target(x.args[1])
            if tg[0] == "self":
                cov = bor(cov, x.cond)
        c.ob("start-then-resolve", "%s in %s" % (by[path], m), bimp(e.cond, cov), "the phase of %s is started in the handler of %s without handing the messages kept meanwhile back to this coordinator" % (by[path], m), where_of(e))
    for path, m in sorted(by.items()):
        c.ob("phase-startable", m, path in started, "no handler starts the phase of " + m)
    first_point(c, cl)


# ================================================================ P02
DONE = {
    # message -> continuation that must fire exactly when the last expected message was taken in
    "SegmentMessage": ("send", "SegmentedMessage"),
    "IntersectionRotationMessage": ("send", "IntersectionCalculationDone"),
    "AskForForeignNodes": ("start", "ForeignNodesAnswer"),
    "ForeignNodesAnswer": ("send", "NodeEstimationDone"),
    "TranspositionRotationMessage": ("send", "TranspositionDone"),
    "NodeDegrees": ("send", "ScoreInitDone"),
    "EdgeWeights": ("send", "ScoreInitDone"),
    "SubScores": ("send", "ScoringDone"),
    "TransitionCountMessage": ("start", "SegmentMessage"),
    "OverlapRotation": ("send", "ScoringHelperInstruction"),
}


def p02(c):
    R, pf = all_roles(c)
    cl = Cluster(c)
    by = {m: tuple(p) for m, (p, t) in pf.items()}
    for msg, (path, t) in sorted(pf.items()):
        b = c.need(handler_for(c, msg), "handler for " + msg)
        if not b or not R[t] or msg not in DONE:
            c.ob("continuation-known", msg, msg in DONE, "no continuation specified for the phase of " + msg)
            continue
        kind, what = DONE[msg]
        E = c.run(b)
        r0, r1 = gate_formulas(E, path, R[t])
        want = band(r0, bnot(r1))
        if msg in ("NodeDegrees", "EdgeWeights"):
            o = "EdgeWeights" if msg == "NodeDegrees" else "NodeDegrees"
            o0, _ = gate_formulas(E, by[o], R[pf[o][1]])
            want = band(want, bnot(o0))
        if msg == "OverlapRotation":
            # one neighbour only: taken in means complete
            want = r0
        # every continuation message / phase start outside the completion condition is premature
        conts = {w for k, w in DONE.values() if k == "send"} - {"ScoringHelperInstruction"}
        if what == "ScoringHelperInstruction":
            conts.add(what)
        for e in sends(E):
            if msg_type(e) in conts:
                c.ob("no-premature-continuation", "%s->%s" % (msg, msg_type(e)), bimp(e.cond, want), "handling %s can continue with %s although the exchange is not complete: under %s" % (msg, msg_type(e), showb(e.cond)[:300]), where_of(e))
        extra = 1
        if kind == "send":
            es = sends(E, what)
            if what == "ScoringDone":
                extra = asb_not_field(("parameters", "explainability"))
            if what == "ScoringHelperInstruction":
                es = [e for e in es if e.loops]
                cov = 0
                for e in es:
                    cov = bor(cov, e.cond)
                # the length guard in score() may refuse (panic); otherwise scoring must start
                pan = [e for e in E.events if e.kind == "panic"]
                pc = 0
                for e in pan:
                    pc = bor(pc, e.cond)
                c.ob("continuation", msg, bimp(want, bor(cov, pc)) and es, "taking in the %s does not start scoring" % msg)
                continue
            c.ob("continuation-target", msg, all(cl.target(e.args[0])[0] in ("self", "other") for e in es), "%s is not sent to this coordinator" % what)
            disj, cov = 1, 0
            for e in es:
                if band(cov, e.cond) != 0 or e.loops:
                    disj = 0
                cov = bor(cov, e.cond)
            c.ob("continuation-once", msg, disj, "%s may be triggered more than once by one %s" % (what, msg))
            c.ob("continuation", msg, cl.eq(cov, band(want, extra)), "%s must be triggered exactly when the last expected %s has been taken in; it is triggered under %s, expected %s" % (what, msg, showb(cov)[:400], showb(want)[:400]), where_of(es[0]) if es else None)
        else:
            op = proto_opaque(c.p)
            Eo = c.run(b, op, "proto")
            starts = [e for e in Eo.events if e.kind == "call" and e.name == "start" and place_of(e.raw[0])[1] == by[what]]
            if msg == "TransitionCountMessage":
                # the decision is taken exactly on completion: correction and non-correction together
                self_correction_gate(c, b, path, R[t], want, cl)
                continue
            g = gate_opaque(Eo, path)
            cov = 0
            for e in starts:
                cov = bor(cov, e.cond)
            c.ob("continuation", msg, g is not None and cov == g, "the answering phase must start exactly when the last question has been taken in; starts under %s" % showb(cov)[:300], where_of(starts[0]) if starts else None)
    # expected numbers of messages
    totals(c, cl, pf)


def asb_not_field(path):
    return bnot(asb(proj(SELF, path)))


def gate_opaque(E, path):
    rec = [e for e in E.events if e.kind == "call" and e.name == "received" and place_of(e.raw[0])[1] == tuple(path)]
    run = [e for e in E.events if e.kind == "call" and e.name == "is_running" and place_of(e.raw[0])[1] == tuple(path)]
    if len(rec) != 1 or not run:
        return None
    p0 = rec[0].args[0]
    a = asb(mk("call", rec[0].fn, p0, rec[0].args[1]))
    r = asb(mk("call", run[0].fn, run[0].args[0]))
    return band(a, bnot(r))


def self_correction_gate(c, b, path, R, want, cl):
    E = c.run(b)
    w = [e for e in sends(E) if msg_type(e) in ("SegmentMessage", "SegmentedMessage", "SendFirstPointMessage")]
    bad = [e for e in w if not bimp(e.cond, want)]
    c.ob("no-premature-continuation", "TransitionCountMessage->segments", not bad, "segments are distributed before all transition counts are known", where_of(bad[0]) if bad else None)
    # on completion: for every outcome of the comparison segmentation goes on (last node: distributes; others: first point / wait)
    own_last = cmp("eq", cl.own, cl.peers, "usize")
    cov = 0
    op = proto_opaque(c.p)
    Eo = c.run(b, op, "proto")
    g = gate_opaque(Eo, path)
    if not c.ob("count-gate", "TransitionCountMessage", g is not None, "the handler of TransitionCountMessage does not consult its protocol once"):
        return
    for e in Eo.events:
        if e.kind == "call" and e.name == "start" and place_of(e.raw[0])[1] == ("segmentation", "direct_protocol"):
            cov = bor(cov, e.cond)
    lastg = band(g, bor(own_last, bnot(cl.has)))
    okk = cl.eq(cov, lastg)
    c.ob("continuation", "TransitionCountMessage", okk, "after the last transition count the last node must distribute its segments and only then; it does so under %s" % showb(cov)[:300])


def totals(c, cl, pf):
    by = {tuple(p): m for m, (p, t) in pf.items()}
    exp = {"AskForForeignNodes": cl.n, "ForeignNodesAnswer": cl.n, "OverlapRotation": const(1)}
    for m, E, e, name, path in proto_events(c):
        if name == "start" and path in by:
            want = exp.get(by[path], cl.peers)
            got = cl.norm(e.args[1])
            c.ob("expected-count", "%s in %s" % (by[path], m), got is want, "the phase of %s expects %s messages; every node sends %s" % (by[path], show(got, 5), show(want, 5)), where_of(e))


# ================================================================ P03
RING = {"NodeDegrees": "next", "EdgeWeights": "next", "SubScores": "next", "TransitionCountMessage": "next", "OverlapRotation": "prev"}
ALL_INCL_OWN = {"AskForForeignNodes", "ForeignNodesAnswer"}


def union(conds):
    cov, disj = 0, True
    for x in conds:
        if band(cov, x) != 0:
            disj = False
        cov = bor(cov, x)
    return cov, disj


def upto(got, want, pos_, ln):
    """the same decision at every position that can be reached: 0..n"""
    for k in range(6):
        for i in range(k + 2):
            env = {pos_: const(i), ln: const(k)}
            if tab.value(boolt(got), env) != (i < k + 1):
                return False
    return True


def resource_iters(c):
    """the iterator over all nodes incl. the own one visits ids 0..n in order, each once"""
    b = [b for b in c.p.bodies.values() if b.get("name") == "next" and "AnyClusterNodesIterator" in (b.get("self_ty") or "")]
    if not c.need(b, "AnyClusterNodesIterator::next"):
        return
    E = c.run(b[0])
    fin = self_final(E)
    nodes = proj(SELF, ("any_cluster_nodes", "nodes", "nodes"))
    n = add(mk("call", LEN, nodes), const(1))
    pos_ = proj(SELF, ("position",))
    more = cmp("lt", pos_, n, "usize")
    got = is_variant(E.ret, "Some")
    if got != more and upto(got, more, pos_, mk("call", LEN, nodes)):
        more = got
    c.ob("all-nodes-iterator", "ends after n nodes", got == more, "the iterator over all nodes yields under %s instead of position < n" % showb(is_variant(E.ret, "Some"))[:200])
    ch = changed_paths(restrict(fin, more), SELF)
    c.ob("all-nodes-iterator", "advances by one", list(ch) == [("position",)] and ch[("position",)] is add(pos_, const(1)), "the iterator over all nodes does not advance by one: %s" % {k: show(v, 4) for k, v in ch.items()})
    v = proj(restrict(E.ret, more), ("Some.0",))
    g = mk("call", "std::collections::HashMap::get", nodes, pos_)
    isr = is_variant(v, "Remote")
    okk = isr == is_variant(g, "Some") or bnot(is_variant(v, "Local")) == is_variant(g, "Some")
    c.ob("all-nodes-iterator", "peer or own by id", okk, "the node with the iterated id must be the peer of that id, and the own actor where no peer has it")
    w = restrict(v, is_variant(g, "Some"))
    tgt = proj(w, ("Remote.0",))
    while tgt.op == "mut" or tgt.op == "ite":
        tgt = tgt.a[2] if tgt.op == "mut" else tgt.a[1]
    c.ob("all-nodes-iterator", "address of that peer", tgt is proj(g, ("Some.0",)), "the iterator yields the address %s for the iterated id" % show(tgt, 4))


def p03(c):
    pf = proto_fields(c.p)
    c.floor("exchange protocol instances", len(pf), 10)
    cl = Cluster(c)
    resource_iters(c)
    ev = proto_events(c)
    op = proto_opaque(c.p)
    by = {m: tuple(p) for m, (p, t) in pf.items()}
    hs = training_handlers(c)
    for msg, path in sorted(by.items()):
        nsend = 0
        for m, b in sorted(hs.items()):
            E = c.run(b, op, "proto")
            ss = sends(E, msg)
            mine = [(x, n2) for mm, EE, x, n2, p2 in ev if EE is E and p2 == path]
            st = [x for x, n in mine if n == "start"]
            sent = [x for x, n in mine if n == "sent"]
            if not ss and not st and not sent:
                continue
            nsend += len(ss)
            inst = "%s in %s" % (msg, m)
            w = where_of((ss or st or sent)[0])
            ids = {cl.target(e.args[0])[2] for e in ss if cl.target(e.args[0])[0] != "self"}
            c.ob("addressed-to-coordinator", inst, all(x is not None and x.op == "lit" and x.a[0] == "Training" for x in ids), "%s is addressed to %s on the other node" % (msg, [show(x) if x is not None else None for x in ids]), w)
            if m == msg:
                # receiving side: ring forwarding
                g = gate_run(E, path)
                if msg in RING and msg != "OverlapRotation":
                    cov, disj = union([e.cond for e in ss])
                    okk = g is not None and disj and cl.eq(band(cov, cl.has), band(g, cl.has)) and all(not e.loops for e in ss)
                    c.ob("ring-forward-once", inst, okk, "a %s that is not the last one must be passed on exactly once; it is passed on under %s" % (msg, showb(cov)[:300]), w)
                    for e in ss:
                        c.ob("ring-forward-unchanged", inst, e.args[1] is sym(b["locals"][2][1] or "msg"), "the forwarded %s differs from the received one: %s" % (msg, show(e.args[1], 5)), where_of(e))
                        t = cl.target(e.args[0])
                        c.ob("ring-forward-next", inst, t[0] == "node" and cl.norm(t[1]) is cl.next_key, "%s is forwarded to %s instead of the next node" % (msg, show(t[1], 6) if t[1] is not None else t[0]), where_of(e))
                    cs, d2 = union([e.cond for e in sent])
                    c.ob("send-accounted", inst, d2 and cl.eq(band(cs, cl.has), band(cov, cl.has)), "forwarding a %s must be counted exactly once" % msg, w)
                    continue
            if msg in RING:
                cov, disj = union([e.cond for e in ss])
                key = cl.next_key if RING[msg] == "next" else cl.prev_key
                for e in ss:
                    t = cl.target(e.args[0])
                    c.ob("ring-target", inst, not e.loops and t[0] == "node" and cl.norm(t[1]) is key, "%s must go to the %s node; goes to %s" % (msg, "next" if RING[msg] == "next" else "previous", show(t[1], 6) if t[1] is not None else t[0]), where_of(e))
                cs, d2 = union([e.cond for e in sent])
                c.ob("send-accounted", inst, disj and d2 and cl.eq(cs, cov), "each %s sent must be counted exactly once: sent under %s, counted under %s" % (msg, showb(cov)[:200], showb(cs)[:200]), w)
                if msg != "OverlapRotation":
                    s0, _ = union([e.cond for e in st])
                    c.ob("own-contribution-sent", inst, cl.eq(s0, cov), "a node must contribute its own %s whenever it starts the phase" % msg, w)
                continue
            # direct exchange: grouped by the loop over the nodes
            want_kind = "each-any" if msg in ALL_INCL_OWN else "each-peer"
            groups = {}
            for e in ss:
                t = cl.target(e.args[0])
                okk = len(e.loops) == 1 and t[0] in ("each-peer", "each-any", "node")
                full = False
                if okk:
                    full = loop_is_all(e.loops[0], t, cl, want_kind)
                c.ob("fan-out-covers-all", inst, okk and full, "%s is not sent to every %s: target %s in loop %s" % (msg, "node" if want_kind == "each-any" else "peer", t[0], [show(l, 5) for l in e.loops]), where_of(e))
                groups.setdefault(loopkey(E, e), []).append(e)
            tot = 0
            for k, es in groups.items():
                cov, disj = union([e.cond for e in es])
                cs, d2 = union([e.cond for e in sent if loopkey(E, e) == k])
                c.ob("one-message-per-node", inst, disj, "a node may get several %s in one round" % msg, where_of(es[0]))
                c.ob("send-accounted", inst, d2 and cl.eq(cs, cov), "each %s sent must be counted exactly once: sent under %s, counted under %s" % (msg, showb(cov)[:200], showb(cs)[:200]), where_of(es[0]))
                tot = bor(tot, cov)
            s0, _ = union([e.cond for e in st])
            s0p = band(s0, cl.has)
            c.ob("fan-out-unconditional", inst, cl.eq(band(tot, cl.has), s0p), "every node must be sent a %s whenever the phase starts, even an empty one: started under %s, sent under %s" % (msg, showb(s0)[:300], showb(tot)[:300]), w)
        c.ob("message-sent", msg, nsend > 0, "no coordinator handler sends " + msg)


def gate_run(E, path):
    rec = [e for e in E.events if e.kind == "call" and e.name == "received" and place_of(e.raw[0])[1] == tuple(path)]
    run = [e for e in E.events if e.kind == "call" and e.name == "is_running" and place_of(e.raw[0])[1] == tuple(path)]
    if len(rec) != 1 or not run:
        return None
    a = asb(mk("call", rec[0].fn, rec[0].args[0], rec[0].args[1]))
    r = asb(mk("call", run[0].fn, run[0].args[0]))
    return band(a, r)


def loopkey(E, e):
    return tuple(e.loops)


def loop_is_all(src, t, cl, kind):
    s = src
    while s.op == "enumerate":
        s = s.a[0]
    if t[0] == "each-peer":
        return kind == "each-peer" and s is cl.nodes
    if t[0] == "each-any":
        return kind == "each-any" and is_any_iter(s, cl)
    return False
