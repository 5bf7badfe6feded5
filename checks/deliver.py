"""P23 the end of a run: the result reaches whoever asked for it, and only then everything stops."""
from start import *
from transport import opaque_handlers

STOPS = ("stop", "stop_with_code", "terminate", "exit", "abort")


def stop_kind(path, gargs=()):
    """what a call stops: 'system', 'process', 'actor' or None"""
    seg = strip_generics(path).split("::")
    if seg[-1] not in STOPS:
        return None
    if "System" in seg or "Arbiter" in seg or "SystemRunner" in seg:
        return "system"
    if "process" in seg:
        return "process"
    if path.startswith("actix") or "ActorContext" in path:
        return "actor"
    return None


def entry_points(c):
    """functions called from outside: trait methods, public functions; with the functions each of them reaches"""
    p = c.p
    callees = {}
    for b in p.bodies.values():
        s = set()
        for bl in b["blocks"]:
            bl = bl or {}
            t = bl.get("t") or {}
            if t.get("k") == "call" and isinstance(t.get("fn"), dict):
                d = t["fn"]
                for k in ((d.get("resolved") or d).get("key"), b["pre"] + str((d.get("resolved") or d).get("key")), d.get("key")):
                    if k in p.bodies:
                        s.add(k)
        callees[b["key"]] = s
    # closures belong to the function they are written in
    for b in p.bodies.values():
        k = b["key"]
        for o in p.bodies.values():
            if o is not b and o["path"].startswith(b["path"] + "::{closure"):
                callees[k].add(o["key"])
    return callees


def reach(callees, k):
    seen, todo = set(), [k]
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(callees.get(x, ()))
    return seen


def stoppers(c):
    """{(kind, entry function)}: entry functions (handlers, trait methods, functions nobody calls) from which a stop is reached"""
    p = c.p
    callees = entry_points(c)
    called = set()
    for k, s in callees.items():
        called |= {x for x in s if x != k}
    site = {}
    for b in p.bodies.values():
        for bl in b["blocks"]:
            t = (bl or {}).get("t") or {}
            if t.get("k") == "call" and isinstance(t.get("fn"), dict) and "path" in t["fn"]:
                kd = stop_kind(t["fn"]["path"])
                if kd:
                    site.setdefault(b["key"], set()).add((kd, base(t["fn"].get("args", [""])[0]) if t["fn"].get("args") else ""))
    out = {}
    for b in p.bodies.values():
        if b["kind"] == "Closure" and b["key"] in called:
            continue
        if b["key"] in called and b.get("trait") is None:
            continue
        for r in reach(callees, b["key"]):
            for kd in site.get(r, ()):
                out.setdefault((kd[0], b["key"]), b)
    return out


def name_of(b):
    a = base(b.get("self_ty") or "")
    m = base(b["trait_args"][1]) if b.get("trait") == "actix::Handler" and len(b.get("trait_args") or ()) > 1 else b.get("name") or b["path"].split("::")[-1]
    return "%s/%s" % (a, m) if a else m


SYS_OK = {"Training/ScoringDone", "SinkActor/finished", LST + "/stopped"}
ACT_OK = {"Training/ScoringDone"}


def check_stops(c):
    found = {"system": set(), "actor": set(), "process": set()}
    for (kd, k), b in sorted(stoppers(c).items(), key=lambda x: str(x[0])):
        n = name_of(b)
        found[kd].add(n)
        if kd == "process":
            c.ob("ends", "process ended in " + n, False, "%s ends the process while other nodes or the caller still need it" % n)
        elif kd == "system":
            c.ob("ends", "system stopped in " + n, n in SYS_OK, "%s stops the whole system; only the end of scoring, the delivered result and a leaving member may" % n)
        elif n.split("/")[0] == "Training" or n.split("/")[0] == "":
            c.ob("ends", "actor stopped in " + n, n in ACT_OK, "%s stops the training; only the end of scoring may" % n)
    c.ob("ends", "scoring", "Training/ScoringDone" in found["system"], "the end of scoring must stop the system")


def check_done(c):
    hb = c.p.handler("Training", "ScoringDone")
    if not c.need(hb, "handler of ScoringDone"):
        return
    E = c.run(hb, None, "p23")
    sink = bvar(mk("is", proj(SELF, ("sink",)), "Some"))
    ss = sends(E, "DetectionResponse")
    tot = 0
    for e in ss:
        c.ob("result", "once", not e.loops and not band(tot, e.cond), "the result must be sent once", where_of(e))
        tot = bor(tot, no_panic(e.cond))
        c.ob("result", "recipient", rs(e.args[0], e.cond) is proj(SELF, ("sink", "Some.0")), "the result must go to whoever asked for it, not %s" % show(e.args[0], 4), where_of(e))
        v = rs(proj(e.args[1], ("anomaly_score",)), e.cond)
        c.ob("result", "scores", v is proj(SELF, ("scoring", "score", "Some.0")), "the result must be the final scores, not %s" % show(v, 5)[:200], where_of(e))
    score = bvar(mk("is", proj(SELF, ("scoring", "score")), "Some"))
    c.ob("result", "when asked for", tot in (sink, band(sink, score)), "the result must be sent exactly if somebody asked for it: %s" % showb(tot)[:200])
    tot = {"system": 0, "actor": 0}
    for e in E.events:
        if e.kind == "call" and e.name in STOPS:
            kd = stop_kind(e.fn)
            if kd == "actor" and not (e.args and e.args[0] is sym("ctx")):
                kd = None
            if kd in tot:
                c.ob("ends", "after scoring: %s once" % kd, not e.loops, "stopped repeatedly", where_of(e))
                tot[kd] = bor(tot[kd], no_panic(e.cond))
    c.ob("ends", "system after scoring", tot["system"] == 1 or bimp(bor(bnot(sink), score), tot["system"]), "every end of scoring must stop the system: %s" % showb(tot["system"])[:200])


def check_sink(c):
    hb = c.p.handler("SinkActor", "DetectionResponse")
    if c.need(hb, "handler of DetectionResponse"):
        E = c.run(hb, None, "p23")
        wr = [e for e in E.events if e.kind == "call" and e.name == "write" and "SinkWrite" in e.fn]
        cl = [e for e in E.events if e.kind == "call" and e.name == "close" and "SinkWrite" in e.fn]
        ok = len(wr) == 1 and wr[0].cond == 1 and not wr[0].loops and wr[0].args[0] is proj(SELF, ("sink",)) and wr[0].args[1] is proj(sym("msg"), ("anomaly_score",))
        c.ob("result", "written", ok, "the received scores must be written to the own sink once", where_of(wr[0]) if wr else None)
        for e in cl:
            c.ob("result", "closed after writing", bool(wr) and e.idx > wr[0].idx, "the sink must not be closed before the scores are written", where_of(e))
    fns = {}
    for nm_ in ("start_send", "poll_flush", "poll_close", "poll_ready"):
        b = [b for b in c.p.bodies.values() if b.get("name") == nm_ and base(b.get("self_ty") or "") == "MySink"]
        if not c.need(b, "MySink::" + nm_):
            return
        fns[nm_] = c.run(b[0], None, "p23")
    C = proj(SELF, ("content",))
    has = bvar(mk("is", C, "Some"))

    def sent(E, val, when):
        ss = [e for e in E.events if e.kind == "call" and e.name == "send" and "UnboundedSender" in e.fn]
        tot = 0
        for e in ss:
            if rs(e.args[0], e.cond) is proj(SELF, ("sender",)) and rs(e.args[1], e.cond) is val:
                tot = bor(tot, no_panic(e.cond))
        return bimp(when, tot)
    for nm_, E in fns.items():
        for e in E.events:
            if e.kind == "call" and e.name == "send" and "UnboundedSender" in e.fn:
                v = rs(e.args[1], e.cond)
                c.ob("result", "unchanged in " + nm_, v in (proj(C, ("Some.0",)), sym("item")), "the caller must get the scores, not %s" % show(v, 4)[:200], where_of(e))
        if nm_ != "start_send":
            r = E.ret
            ok = r.op == "adt" and r.a[1] == "Ready" and proj(r, ("Ready.0",)).a[1:2] == ("Ok",)
            c.ob("result", "ready: " + nm_, ok, "%s must not leave the sink waiting: %s" % (nm_, show(r, 4)[:200]))
            fc = rs(proj(self_final(E), ("content",)), has)
            c.ob("result", "kept: " + nm_, fc is C or sent(E, proj(C, ("Some.0",)), has), "%s must not drop scores that were not passed on" % nm_)
    S = fns["start_send"]
    st = proj(self_final(S), ("content",))
    now = sent(S, sym("item"), 1)
    stored = st.op == "adt" and st.a[1] == "Some" and proj(st, ("Some.0",)) is sym("item")
    later = [n for n in ("poll_flush", "poll_close") if sent(fns[n], proj(C, ("Some.0",)), has)]
    c.ob("result", "passed on", now or (stored and bool(later)), "scores that were written must be sent to the waiting caller")
    c.ob("result", "accepted", S.ret.op == "adt" and S.ret.a[1] == "Ok", "writing must succeed")


def check_fit(c):
    fs = [b for b in c.p.bodies.values() if b.get("name") == "fit" and base(b.get("self_ty") or "") == "Training" and b["kind"] != "Closure"]
    cl = [b for b in c.p.bodies.values() if b["path"].endswith("interface::actor_fit::{closure#0}")]
    if not (c.need(fs, "Training::fit") and c.need(cl, "actor_fit")):
        return
    E = c.run(fs[0], None, "p23")
    fin = (E.final or {}).get(("O", SELF))
    c.ob("fit", "same object again", fin is None or fin is SELF, "fitting must not change the object it is called on: %s" % (show(fin, 4)[:200] if fin is not None else ""))
    E = c.run(cl[0], None, "p23")
    chans = [e for e in E.events if e.kind == "call" and e.name in ("unbounded_channel", "channel")]
    st = [e for e in E.events if e.kind == "call" and e.name == "start" and e.argty and base(e.argty[0]) == "Training"]
    ss = sends(E, "StartTrainingMessage")
    c.ob("fit", "one start", len(ss) == 1 and ss[0].cond == 1 and not ss[0].loops, "the training must be started exactly once", where_of(ss[0]) if ss else None)
    mks = [e for e in E.events if e.kind == "call" and e.name in ("create", "start") and "Actor" in e.fn and e not in st]
    if not (c.need(chans, "result channel") and c.need(st, "start of the training") and ss):
        return
    ch = mk("call", chans[0].fn, *chans[0].args)
    c.ob("fit", "training", len(st) == 1 and ss[0].args[0] is mk("call", st[0].fn, *st[0].args) and flat_place(st[0].args[0], ())[1][-1:] == ("actor",), "the given training must be started and get the data", where_of(st[0]))
    m = ss[0].args[1]
    c.ob("fit", "alone", is_empty_list(proj(m, ("nodes", "nodes"))), "data given in memory is processed by this process alone: %s" % show(proj(m, ("nodes",)), 4)[:200], where_of(ss[0]))
    d = proj(m, ("data",))
    c.ob("fit", "data", d.op == "adt" and d.a[1] == "Some" and flat_place(proj(d, ("Some.0",)), ())[1][-1:] == ("data",), "the training must get the given data unchanged: %s" % show(d, 4)[:200], where_of(ss[0]))
    src = proj(m, ("source",))
    made = [mk("call", e.fn, *e.args) for e in mks]
    r = proj(src, ("Some.0",)) if src.op == "adt" and src.a[1] == "Some" else None
    c.ob("fit", "result wanted", r is not None and is_call(r, "recipient") and r.a[1] in made, "the training must be told whom to send the result: %s" % show(src, 4)[:200], where_of(ss[0]))
    snk = [x for e in E.events if e.kind == "call" for a in e.args for x in subterms(a) if x.op == "adt" and base(x.a[0]) == "MySink"]
    c.ob("fit", "sink", bool(snk) and all(proj(x, ("sender",)) is proj(ch, ("0",)) and proj(x, ("content",)).a[1:2] == ("None",) for x in snk), "the sink must send into the channel the caller reads and start empty")
    rv = [e for e in E.events if e.kind == "call" and e.name == "recv"]
    ok = len(rv) == 1 and rv[0].args[0] is proj(ch, ("1",)) and rv[0].idx > ss[0].idx
    c.ob("fit", "waits", ok, "the caller must wait for the result of this training", where_of(rv[0]) if rv else None)
    ok_leaves = []
    for cond, v in leaves(E.ret):
        if v.op == "adt" and v.a[1] == "Ok":
            ok_leaves.append(rs(proj(v, ("Ok.0",)), cond))

    def received(v):
        """what recv gave, passed through nothing else"""
        while v.op in ("proj", "field"):
            v = v.a[0]
        while v.op == "await" or (v.op == "call" and nm(v) in ("await", "into_future")):
            v = v.a[-1] if v.op == "call" else v.a[0]
        return is_call(flat_place(v, ())[0], "recv")
    c.ob("fit", "returned", bool(ok_leaves) and all(received(v) for v in ok_leaves), "the caller must get what was received: %s" % show(E.ret, 6)[:250])


EMPTY_NONE = ("own_addr", "data_manager", "dataset_stats", "num_rotated", "anomaly_contribution", "sink")


def check_init(c):
    b = [b for b in c.p.bodies.values() if b.get("name") == "init" and base(b.get("self_ty") or "") == "Training" and b["kind"] != "Closure"]
    if c.need(b, "Training::init"):
        E = c.run(b[0], None, "p23")
        r = E.ret
        c.ob("fit", "parameters", r.op == "adt" and proj(r, ("parameters",)) is sym("parameters"), "a training must use the given parameters")
        for f in EMPTY_NONE:
            v = proj(r, (f,))
            c.ob("fit", "new: " + f, v.op == "adt" and v.a[1] == "None", "%s of a new training must be unset: %s" % (f, show(v, 3)))
    b = [b for b in c.p.bodies.values() if b.get("name") == "started" and base(b.get("self_ty") or "") == "Training"]
    if c.need(b, "Training::started"):
        E = c.run(b[0], None, "p23")
        # registering for remote messages leaves the training as it is
        fin = self_final(E)
        for _ in range(4):
            reg = {x: x.a[2] for x in subterms(fin) if x.op == "mut" and nm(x) == "register"}
            if not reg:
                break
            fin = subst(fin, reg)
        dm = proj(fin, ("data_manager",))
        v = proj(dm, ("Some.0",)) if dm.op == "adt" else None
        okv = v is not None and is_call(v, "start") and v.a[1].op == "adt" and base(v.a[1].a[0]) == "DataManager"
        c.ob("fit", "data manager", okv, "a started training must start its data manager: %s" % show(dm, 4)[:200])
        if okv:
            D = v.a[1]
            c.ob("fit", "data manager's parameters", same_value(proj(D, ("parameters",)), proj(SELF, ("parameters",)), c), "the data manager must use the training's parameters")
            rc = proj(D, ("receiver",))
            c.ob("fit", "data manager's recipient", is_call(rc, "recipient") and is_call(rc.a[1], "address") and rc.a[1].a[1] is sym("ctx"), "the data manager must report to the training that started it: %s" % show(rc, 4)[:200])
        ex = asb(proj(SELF, ("parameters", "explainability")))
        ac = proj(fin, ("anomaly_contribution",))
        a, n = rs(ac, ex), rs(ac, bnot(ex))
        c.ob("fit", "explainability", a.op == "adt" and a.a[1] == "Some" and n is proj(SELF, ("anomaly_contribution",)), "contributions must be collected exactly if they were asked for: %s" % show(ac, 4)[:200])


DONE = {"PreprocessingDoneMessage", "IntersectionCalculationDone", "IntersectionRotationMessage", "SubScores", "ScoringDone",
        "QueryClustercontributionDone", "GaussianKDEResponse", "ClusteringResponse"}


def check_pills(c):
    """helpers are ended only when the work they were started for is done"""
    callees = entry_points(c)
    pills = set()
    for b in c.p.bodies.values():
        for bl in b["blocks"]:
            t = (bl or {}).get("t") or {}
            if t.get("k") == "call" and isinstance(t.get("fn"), dict) and any(base(str(a)) == "PoisonPill" for a in t["fn"].get("args") or ()):
                pills.add(b["key"])
    n_ = 0
    for b in list(c.p.bodies.values()):
        if b.get("trait") != "actix::Handler" or b["kind"] == "Closure" or not reach(callees, b["key"]) & pills:
            continue
        n = name_of(b)
        E = c.run(b, opaque_handlers(b), "p23")
        done = 0
        for m in DONE:
            for e in sends(E, m):
                if payload_of(e).op == "adt" or m not in ("IntersectionRotationMessage",):
                    done = bor(done, no_panic(e.cond))
        for e in sends(E, "PoisonPill"):
            n_ += 1
            if n == "Training/RotationDoneMessage":
                ok = rs(e.args[0], e.cond) is proj(SELF, ("data_manager", "Some.0"))
            elif n == "Training/PCAHelperMessage":
                ok = bimp(e.cond, bvar(mk("is", sym("msg"), "Response")))
            else:
                ok = bimp(e.cond, done)
            c.ob("ends", "helpers in " + n, ok, "%s ends %s before its work is done: if %s" % (n, show(e.args[0], 3), showb(e.cond)[:200]), where_of(e))
    c.floor("ends of helper actors", n_, 5)


def p23(c):
    check_done(c)
    check_sink(c)
    check_fit(c)
    check_init(c)
    check_pills(c)
    check_stops(c)
