"""P05 score windows, P06 parallel scoring, P07 joining of sub-scores and result output."""
from exchange import *
from mapops import *
from lists import *

Q = proj(SELF, ("parameters", "query_length"))
EIT = proj(SELF, ("scoring", "edges_in_time"))
EDGES = proj(SELF, ("data_store", "edges"))


def rng(a, b):
    return adt("std::ops::Range", "Range", [("start", a), ("end", b)])


def is_range(t):
    return t.op == "adt" and t.a[0].split("::")[-1] in ("Range",) and set(dict(t.a[2])) == {"start", "end"}


def rparts(t):
    d = dict(t.a[2])
    return d["start"], d["end"]


def flen(t):
    return mk("call", "std::vec::Vec::len", t)


def lenlike(t, x):
    return t.op == "call" and t.a[0].split("::")[-1] == "len" and t.a[1] is x


def window_ok(src, eit, edges, i, q):
    """src == edges[eit[i] .. min(eit[i+q-1]+1, len(edges))]"""
    if src.op != "index" or src.a[0] is not edges:
        return False
    ix = src.a[1]
    if ix.op == "tuple":
        ix = ix.a[-1]
    if not isinstance(ix, T) or not is_range(ix):
        return False
    a, b = rparts(ix)
    if a is not proj1(eit, ("ix", i)):
        return False
    e = add(proj1(eit, ("ix", add(i, sub(q, const(1))))), const(1))
    if b.op == "min":
        x, y = b.a
        return (x is e and lenlike(y, edges)) or (y is e and lenlike(x, edges))
    return False


def elim_mod(t):
    m = {}
    for x in subterms(t):
        if x.op == "mod" or (x.op == "call" and x.a[0] == "mod"):
            m[x] = x
    r = {}
    for x in m:
        a, b = x.a[0], x.a[1]
        r[x] = sub(a, mul(b, idiv(a, b)))
    return subst(t, r)


def score_parts(E, response):
    """fields of the response a scoring helper sends"""
    return {k: proj(response, (k,)) for k in ("start", "scores", "first_empty")}


def helper_windows(c, strict_formula=True):
    """what a scoring helper does with one instruction"""
    b = c.need(c.p.handler("ScoringHelper", "ScoringHelperInstruction"), "ScoringHelper handles ScoringHelperInstruction")
    if not b:
        return None
    E = c.run(b)
    msg = sym(b["locals"][2][1] or "msg")
    ss = sends(E, "ScoringHelperResponse")
    if not c.ob("helper-answers-once", "ScoringHelperInstruction", len(ss) == 1 and not ss[0].loops and ss[0].cond == 1, "a scoring helper must answer every instruction with exactly one response"):
        return None
    return E, msg, ss[0]


def times_counted(c, cl):
    """edges_in_time[t] is the number of edges that lead to time steps up to t; one entry per point of this node"""
    from conc import Conc, Rec, Some, None_, Unknown
    import itertools
    b = c.p.handler("Training", "TranspositionDone")
    if not b:
        return
    E = c.run(b, proto_opaque(c.p), "proto")
    eit = proj(self_final(E), ("scoring", "edges_in_time"))
    rsp, nr = proj(SELF, ("transposition", "range_start_point")), proj(SELF, ("num_rotated",))
    node = lambda p: Rec("IndependentNode", segment=0, cluster=0, from_point_id=p)
    n = 0
    for peers, own, start in ((0, 0, None), (0, 0, 0), (2, 0, 0), (2, 1, 7), (2, 2, 7), (1, 1, 3), (1, 0, 0)):
        s0 = start or 0
        env = {EDGES: None, rsp: None_ if start is None else Some(start), cl.peers: peers, proj(SELF, ("parameters", "n_cluster_nodes")): peers + 1}
        tot = sum(range(peers + 1))
        for x in subterms(cl.own):
            if x.op == "call" and x.a[0].split("::")[-1] == "sum":
                env[x] = tot if x.a[1].op != "call" else tot - own
        # how the other nodes are reached does not matter here
        for e in E.events:
            for at in bsupport(e.cond):
                if at.op == "is" and at.a[0].op == "call" and at.a[0].a[0].split("::")[-1] in ("get", "get_mut") and at.a[0].a[1] is cl.nodes:
                    env[at] = peers > 0
        for pts in (3, 5):
            size = pts - (1 if own == peers else 0)
            for k in range(0, 4):
                for rel in itertools.combinations_with_replacement(range(size), k):
                    if s0 == 0 and k and rel[-1] == 0:
                        continue        # nothing happens after the first step: no window has an edge
                    env[EDGES] = [Rec("Edge", from_node=node(max(0, s0 + r - 1)), to_node=node(s0 + r)) for r in rel]
                    env[nr] = Some(pts)
                    env[proj(nr, ("Some.0",))] = pts
                    want = [sum(1 for r in rel if r <= t) for t in range(size)]
                    n += 1
                    at_ = "node %d of %d, %d points from %d on, edges to steps %s" % (own, peers + 1, pts, s0, [s0 + r for r in rel])
                    try:
                        got = Conc(E, env)(eit)
                    except Unknown as u:
                        c.ob("times-counted", "edges per time", False, "the number of edges per time step is not understood (%s): %s" % (at_, u))
                        return
                    if not c.ob("times-counted", "edges per time", got == want, "entry t must be the number of edges leading to time steps up to t (%s): it is %s instead of %s" % (at_, got, want)):
                        return
    c.floor("edge sequences for the counts per time", n, 100)


def p05(c):
    r = helper_windows(c)
    if r:
        E, msg, s = r
        sc = proj(s.args[1], ("scores",))
        ad = listadds(E, sc)
        want = rng(proj(msg, ("start",)), add(proj(msg, ("start",)), proj(msg, ("length",))))
        ok1 = ad is not None and ad[0] is None and len({a.src for a in ad[1]}) == 1 and ad[1][0].src is want
        c.ob("one-score-per-window", "scoring helper", ok1 and union([a.cond for a in ad[1]]) == (1, True), "a helper must produce one score per window start..start+length, in order; it builds %s" % (ad and ad[1],), where_of(s))
        i = elem(want)
        eit, edges, q = proj(SELF, ("edges_in_time",)), proj(SELF, ("edges",)), proj(SELF, ("query_length",))
        # every read of the edge list inside the loop is that window
        reads = [e for e in E.events if e.kind == "index" and e.args and e.args[0] is edges]
        okw = bool(reads) and all(e.loops and e.loops[0] is want and window_ok(mk("index", edges, e.args[1]), eit, edges, i, q) for e in reads)
        c.ob("window-edges", "scoring helper", okw, "the window of score i must be the edges from edges_in_time[i] to edges_in_time[i+q-1] inclusive; the helper reads %s" % [show(e.args[1], 7) for e in reads][:2], where_of(reads[0]) if reads else where_of(s))
        w = [x for a in (ad[1] if ad else []) for x in subterms(a.val) if x.op == "index" and x.a[0] is edges]
        c.ob("window-scored", "scoring helper", ok1 and any(window_ok(x, eit, edges, i, q) for x in w), "the score of a window does not depend on the edges of the window")
        win = next((x for x in w if window_ok(x, eit, edges, i, q)), None)
        if win is not None and ok1:
            score_formula(c, E, ad[1], win, edges, s)
    # the number of windows, in the coordinator
    pf = proto_fields(c.p)
    op = proto_opaque(c.p)
    cl = Cluster(c)
    for m in ("TranspositionDone", "OverlapRotation", "ScoreInitDone"):
        b = c.need(c.p.handler("Training", m), "handler for " + m)
        E = c.run(b, op, "proto")
        ss = sends(E, "ScoringHelperInstruction")
        c.ob("scoring-started", m, ss, "handling %s never starts scoring" % m)
        fin = self_final(E)
        eit = proj(fin, ("scoring", "edges_in_time"))
        for e in ss:
            tot = total_instructed(e, E)
            okt = False
            if tot is not None:
                tot = elim_mod(tot)
                for ev in {x.a[1] for x in subterms(tot) if x.op == "call" and x.a[0].split("::")[-1] == "len"}:
                    if tot is sub(flen_like(tot, ev), sub(Q, const(1))) and (ev is eit or restrict(eit, e.cond) is ev):
                        okt = True
            c.ob("window-count", m, okt, "the windows to score must be as many as points minus (query_length - 1); the instructions cover %s" % (show(tot, 7) if tot is not None else "?"), where_of(e))
    times_counted(c, cl)
    # each node hands the start of its time range to the previous node, after taking in the next node's
    for m in ("ScoreInitDone", "OverlapRotation"):
        b = c.p.handler("Training", m)
        if not b:
            continue
        E = c.run(b, op, "proto")
        fin = self_final(E)
        msg = sym(b["locals"][2][1] or "msg")
        for e in sends(E, "OverlapRotation"):
            pl = e.args[1]
            eit = restrict(proj(fin, ("scoring", "edges_in_time")), e.cond)
            edges = restrict(proj(fin, ("data_store", "edges")), e.cond)
            times = proj(pl, ("edges_in_time",))
            t = unwrap_copy(times, E)
            okt = t.op == "index" and t.a[0] is eit and is_range(ixr(t)) and rparts(ixr(t)) == (const(0), sub(Q, const(1)))
            c.ob("overlap-times", m, okt, "the first query_length-1 time steps must be shared with the previous node; shared: %s" % show(times, 6), where_of(e))
            el = unwrap_copy(proj(pl, ("edges",)), E)
            ok2 = False
            if el.op == "index" and el.a[0] is edges and is_range(ixr(el)):
                a, bb = rparts(ixr(el))
                last = add(proj1(eit, ("ix", sub(Q, const(1)))), const(1))
                if a is const(0) and bb.op == "min":
                    x, y = bb.a
                    ok2 = (x is last and lenlike(y, edges)) or (y is last and lenlike(x, edges))
                elif a is const(0) and lenlike(bb, edges):
                    ok2 = True
            c.ob("overlap-edges", m, ok2, "all edges up to the one closing window query_length-1 must be shared with the previous node; shared: %s" % show(el, 7), where_of(e))
    b = c.p.handler("Training", "OverlapRotation")
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    fin = self_final(E)
    rec = [e for e in E.events if e.kind == "call" and e.name == "received"]
    g = asb(mk("call", rec[0].fn, rec[0].args[0], rec[0].args[1])) if rec else 0
    got = restrict(proj(fin, ("scoring", "edges_in_time")), g)
    ad = listadds(E, got)
    last = proj(mk("call", "core::slice::last", EIT), ("Some.0",))
    okr = ad is not None and ad[0] is EIT and len(ad[1]) == 1 and ad[1][0].cond in (1, g) and ad[1][0].src is proj(msg, ("edges_in_time",)) and is_shifted(ad[1][0].val, elem(proj(msg, ("edges_in_time",))), EIT)
    c.ob("overlap-times-appended", "OverlapRotation", okr, "the received time steps must follow the own ones, shifted by the own number of edges; result %s" % (ad and ad[1]))
    ad = listadds(E, restrict(proj(fin, ("data_store", "edges")), g))
    oke = ad is not None and ad[0] is EDGES and len(ad[1]) == 1 and ad[1][0].src is proj(msg, ("edges",)) and ad[1][0].cond in (1, g) and edge_of(ad[1][0].val, elem(proj(msg, ("edges",))))
    c.ob("overlap-edges-appended", "OverlapRotation", oke, "all received edges must follow the own ones in order; result %s" % (ad and ad[1]))
    # anomaly contributions look at the same windows
    b = c.p.handler("Training", "SubScores")
    E = c.run(b)
    qs = sends(E, "QueryClusterContribution")
    c.floor("contribution queries", len(qs), 1)
    for e in qs:
        ns = collected(E, proj(e.args[1], ("nodes",)))
        w = [x for x in subterms(ns) if x.op == "index" and x.a[0] is EDGES]
        src = e.loops[-1] if e.loops else None
        okc = len(e.loops) == 1 and is_range(src) and rparts(src)[0] is const(0) and is_windows(rparts(src)[1], EIT)
        c.ob("contribution-per-window", "QueryClusterContribution", okc, "one contribution per score window is needed; loop over %s" % (show(src, 5) if src is not None else None), where_of(e))
        c.ob("contribution-window", "QueryClusterContribution", okc and len(w) >= 1 and all(window_ok(x, EIT, EDGES, elem(src), Q) for x in w), "the contribution of window i must come from the edges of window i; it reads %s" % [show(x, 6) for x in w][:1], where_of(e))


def flen_like(t, ev):
    for x in subterms(t):
        if lenlike(x, ev):
            return x
    return None


def is_windows(t, eit):
    l = flen_like(t, eit)
    return l is not None and t is sub(l, sub(Q, const(1)))


def ixr(t):
    ix = t.a[1]
    if isinstance(ix, tuple):
        ix = ix[-1]
    return ix


def unwrap_copy(t, E=None):
    """strip copies that keep elements and order"""
    while True:
        if E is not None and t.op == "loopvar":
            ad = listadds(E, t)
            if ad and ad[0] is None and len(ad[1]) == 1 and ad[1][0].src is not None and ad[1][0].cond == 1:
                t = mk("seq", ad[1][0].src, ad[1][0].val, TRUE)
        if t.op == "call" and t.a[0].split("::")[-1] == "take" and len(t.a) == 3:
            return mk("index", t.a[1], mk("adt", "std::ops::Range", None, (("start", const(0)), ("end", t.a[2]))))
        if t.op == "collect":
            t = t.a[0]
        elif t.op == "seq" and asb(t.a[2]) == 1 and edge_of(t.a[1], elem(t.a[0])):
            t = t.a[0]
        elif t.op == "call" and t.a[0].split("::")[-1] in ("to_vec", "clone", "cloned", "to_owned") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def edge_of(v, e):
    """v is e or the edge with e's end nodes"""
    if v is e:
        return True
    if v.op == "adt":
        d = dict(v.a[2])
        if set(d) >= {"from_node", "to_node"}:
            return d["from_node"] is proj(e, ("from_node",)) and d["to_node"] is proj(e, ("to_node",))
    return False


def is_shifted(v, x, lst):
    d = sub(v, x)
    return d.op == "field" and d.a[1] == "Some.0" and is_call(d.a[0], "last") and d.a[0].a[1] is lst


def total_instructed(e, E=None):
    """sum of the lengths over the loop of one instruction send; None if start/length do not partition"""
    r = partition(e, E)
    return r


def partition(e, E=None):
    """if instructions (start,length) over i in 0..N are consecutive from 0: the end of the last one"""
    if len(e.loops) != 1 or not is_range(e.loops[0]) or e.cond == 0:
        return None
    src = e.loops[0]
    a, n = rparts(src)
    if a is not const(0):
        return None
    i = elem(src)
    st, ln = proj(e.args[1], ("start",)), proj(e.args[1], ("length",))
    last = cmp("eq", i, sub(n, const(1)), "usize")
    if E is not None and st.op == "loopvar" and st in E.loopinfo:
        # each instruction starts where the one before ended
        init, step, _ = E.loopinfo[st]
        notlast = band(bnot(last), cmp("lt", add(i, const(1)), n, "usize"))
        if init is not const(0) or step is None or elim_mod(sub(restrict(step, notlast), add(st, restrict(ln, notlast)))) is not const(0):
            return None
        d = subst(restrict(ln, last), {i: sub(n, const(1))})
        end = elim_mod(add(st, d))
        if not contains(end, lambda x: x is st or x is i):
            return end
        per = restrict(ln, notlast)
        if contains(per, lambda x: x is st or x is i) or contains(d, lambda x: x is st):
            return None
        return elim_mod(add(mul(sub(n, const(1)), per), d))
    st_in, ln_in = restrict(st, bnot(last)), restrict(ln, bnot(last))
    nxt = subst(restrict(st, 1), {i: add(i, const(1))})
    nxts = {nxt, subst(st_in, {i: add(i, const(1))})}
    if elim_mod(subst(st, {i: const(0)})) is not const(0) and elim_mod(subst(st_in, {i: const(0)})) is not const(0):
        return None
    if elim_mod(add(st_in, ln_in)) not in {elim_mod(x) for x in nxts}:
        return None
    st_l, ln_l = restrict(st, last), restrict(ln, last)
    return elim_mod(subst(add(st_l, ln_l), {i: sub(n, const(1))}))


def score_formula(c, E, adds, win, edges, s):
    """-(sum over the window of weight * (degree of source - 1)) / (number of edges + epsilon)"""
    el = elem(win)
    val = adds[0].val
    for a in adds[1:]:
        val = ite(a.cond, a.val, val)
    ln = [x for x in subterms(val) if lenlike(x, win)]
    empt = cmp("eq", ln[0], const(0), "usize") if ln else None
    if empt is None:
        empt = next((bvar(x) for x in bsupport(asb(mk("bool", 1)))), None)
    if not c.ob("window-empty-known", "scoring helper", ln, "a window without edges is not told apart"):
        return
    full = restrict(val, bnot(empt))
    f = unfloat(closed(E, full))
    w = [(m, k, v) for m, k, v in lookups(f) if contains(k, lambda y: y is el)]
    W = next((v for m, k, v in w if edge_of(k, el) and flat_place(m, ())[1][-1:] == ("edge_weight",)), None)
    D = next((v for m, k, v in w if k is proj(el, ("from_node",)) and flat_place(m, ())[1][-1:] == ("node_degrees",)), None)
    if not c.ob("score-uses-weight-and-degree", "scoring helper", W is not None and D is not None, "the score of a window must use each edge's weight and the degree of its source node; it looks up %s" % [(show(m, 4), show(k, 4)) for m, k, v in w][:3], where_of(s)):
        return
    summand = mul(W, sub(D, const(1)))
    sums = [x for x in subterms(f) if is_call(x, "sum")]
    oks = False
    for x in sums:
        q = x.a[1]
        if q.op == "seq" and q.a[0] is win and asb(q.a[2]) == 1 and unfloat(q.a[1]) is summand:
            rest = subst(f, {x: sym("SUM")})
            # -(SUM / (len + eps))
            rest = neg(rest)
            if rest.op == "fdiv" and rest.a[0] is sym("SUM"):
                d = unfloat(rest.a[1])
                eps = sub(d, ln[0])
                oks = eps.op == "num" and 0 <= float(eps.a[0]) < 1e-3
    c.ob("score-formula", "scoring helper", oks, "the score of a window must be minus the mean of weight * (degree - 1) over its edges; it is %s" % show(f, 9), where_of(s))
    # empty windows repeat the previous score; a leading one is flagged
    em = restrict(val, empt)
    lst = [x for x in subterms(em) if is_call(x, "last")]
    has = is_variant(lst[0], "Some") if lst else 0
    oke = bool(lst) and restrict(em, has) is proj(lst[0], ("Some.0",)) and restrict(em, bnot(has)) in (const(0),)
    c.ob("empty-window-repeats", "scoring helper", oke, "a window without edges must repeat the score before it; it gives %s" % show(em, 6), where_of(s))
    fe = proj(s.args[1], ("first_empty",))
    okf = False
    if fe.op == "loopvar" and fe in E.loopinfo and oke:
        init, step, _ = E.loopinfo[fe]
        okf = asb(init) == 0 and asb(step) == bor(asb(fe), band(empt, bnot(has)))
    c.ob("leading-empty-flagged", "scoring helper", okf, "leading windows without edges must be flagged, and only those; flag is %s" % (show(fe, 5)), where_of(s))


# ================================================================ P06
def helper_fields(c, proto=("scoring", "helper_protocol")):
    return {k: proj(SELF, proto + (k,)) for k in ("n_total", "n_sent", "n_received")}


def p06(c):
    op = proto_opaque(c.p)
    hp = ("scoring", "helper_protocol")
    single = ("scoring", "single_scores")
    # instructions
    nsends = 0
    for m in ("TranspositionDone", "OverlapRotation", "ScoreInitDone"):
        b = c.need(c.p.handler("Training", m), "handler for " + m)
        if not b:
            continue
        E = c.run(b, op, "proto")
        fin = self_final(E)
        for e in sends(E, "ScoringHelperInstruction"):
            nsends += 1
            tot = partition(e, E)
            c.ob("instructions-partition", m, tot is not None, "the instructions must cover the windows consecutively from 0 without gap or overlap: start %s, length %s" % (show(proj(e.args[1], ("start",)), 6), show(proj(e.args[1], ("length",)), 6)), where_of(e))
            if tot is None:
                continue
            n = rparts(e.loops[0])[1]
            nt = restrict(proj(fin, hp + ("n_total",)), e.cond)
            c.ob("responses-expected", m, nt is n, "as many responses must be awaited (%s) as instructions are sent (%s)" % (show(nt, 5), show(n, 5)), where_of(e))
            # no instruction but a single one may be empty: responses are identified by their start
            c.ob("instructions-nonempty", m, at_least_one_each(n, tot), "empty instructions have the same start as their successor; %s instructions for %s windows" % (show(n, 5), show(tot, 5)), where_of(e))
            # the helpers get the final edges, weights and degrees of this node
            mk_ = [x for x in E.events if x.kind == "call" and x.name == "start" and "SyncArbiter" in x.fn and x.idx < e.idx]
            tgt = e.args[0]
            c.ob("helpers-started", m, len(mk_) >= 1, "scoring helpers are not started before they are instructed", where_of(e))
            for x in mk_:
                helper_data(c, E, m, x, e)
    c.floor("instruction sends", nsends, 3)
    # helper: response carries the start of its instruction
    r = helper_windows(c)
    if r:
        E, msg, s = r
        ad = listadds(E, proj(s.args[1], ("scores",)))
        want = rng(proj(msg, ("start",)), add(proj(msg, ("start",)), proj(msg, ("length",))))
        okl = ad is not None and ad[0] is None and len({a.src for a in ad[1]}) == 1 and ad[1][0].src is want and union([a.cond for a in ad[1]]) == (1, True)
        c.ob("response-complete", "scoring helper", okl, "a response must hold one score per window start..start+length, in order; it holds %s" % (ad and ad[1],), where_of(s))
        c.ob("response-start", "scoring helper", proj(s.args[1], ("start",)) is proj(msg, ("start",)), "the response must carry the start of the instruction; it carries %s" % show(proj(s.args[1], ("start",)), 5), where_of(s))
        tg = s.args[0]
        c.ob("response-receiver", "scoring helper", fieldpath(tg) == ("self", "receiver"), "the response goes to %s" % show(tg, 4), where_of(s))
    # reassembly
    b = c.need(c.p.handler("Training", "ScoringHelperResponse"), "handler for ScoringHelperResponse")
    if not b:
        return
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    S = proj(SELF, single)
    st = proj(msg, ("start",))
    ln = [x for e in E.events for x in e.args[:1] if e.name == "len" and x is S]
    inorder = cmp("eq", st, mk("call", "std::vec::Vec::len", S), "usize")
    fin = self_final(E)
    ch = changed_paths(restrict(fin, bnot(inorder)), SELF)
    bufs = [k for k in ch if k[:1] == ("scoring",)]
    okb = False
    buf = None
    if len(ch) == 1:
        buf, v = list(ch.items())[0]
        okb = v.op == "mut" and v.a[0].split("::")[-1] == "insert" and v.a[2] is proj(SELF, buf) and v.a[3] is st and v.a[4] is msg
    c.ob("early-response-kept", "ScoringHelperResponse", okb, "a response that is not the next one must only be kept under its start; then changes: %s" % {".".join(k): show(v, 5) for k, v in ch.items()})
    bad = [e for e in E.events if is_send(e) and band(e.cond, bnot(inorder)) != 0]
    c.ob("early-response-no-send", "ScoringHelperResponse", not bad, "a response that is not the next one triggers %s" % [msg_type(e) for e in bad], where_of(bad[0]) if bad else None)
    cur = restrict(fin, inorder)
    rc, tt = proj(SELF, hp + ("n_received",)), proj(SELF, hp + ("n_total",))
    got = proj(cur, hp + ("n_received",))
    c.ob("response-counted-once", "ScoringHelperResponse", got is add(rc, const(1)), "the next response must be counted once; received becomes %s" % show(got, 5))
    more = band(inorder, cmp("lt", add(rc, const(1)), tt, "usize"))
    done = band(inorder, cmp("le", tt, add(rc, const(1)), "usize"))
    c.ob("completion-split", "ScoringHelperResponse", bor(more, done) == inorder, "internal")
    # appended in order
    lst = restrict(proj(fin, single), more)
    ad = listadds(E, lst)
    ok1 = ad is not None and ad[0] is S and len(ad[1]) >= 1
    if ok1:
        for x in ad[1]:
            o = x.src
            ok1 = ok1 and o is not None and (origin_list(E, o) is proj(msg, ("scores",)))
        ok1 = ok1 and bimp(more, union([x.cond for x in ad[1]])[0]) and union([x.cond for x in ad[1]])[1]
    c.ob("response-appended", "ScoringHelperResponse", ok1, "the scores of the next response must be appended to the ones before; result %s" % (ad and ad[1],))
    # missing leading scores
    fe = asb(proj(msg, ("first_empty",)))
    hasl = [x for e in E.events for x in [mk("call", e.fn, *e.args)] if e.name == "last" and e.args[0] is S]
    okf = False
    if ok1 and hasl:
        h = is_variant(hasl[0], "Some")
        okf = True
        for x in ad[1]:
            src = restrict(x.src, band(more, fe, h))
            okf = okf and fill_ok(E, src, proj(hasl[0], ("Some.0",)))
            okf = okf and restrict(x.src, band(more, bnot(fe))) is proj(msg, ("scores",))
        v = proj(restrict(fin, band(inorder, fe, bnot(h), more)), ("scoring", "first_empty"))
        okf = okf and asb(v) == 1
        v = proj(restrict(fin, band(inorder, bnot(fe), more)), ("scoring", "first_empty"))
        okf = okf and v is proj(SELF, ("scoring", "first_empty"))
    c.ob("leading-gap-filled", "ScoringHelperResponse", okf, "leading missing scores of a response must take the last score of the responses before (or be passed on as this node's leading gap)")
    # next kept response is released
    ss = [e for e in sends(E, "ScoringHelperResponse")]
    okn = len(ss) == 1 and ss[0].args[1].op == "field" and not ss[0].loops
    if okn:
        pl = ss[0].args[1]
        x = pl.a[0]
        okn = pl.a[1] == "Some.0" and is_call(x, "remove") and x.a[1] is proj(SELF, buf or ()) and lenlike_list(x.a[2], lst, more) and ss[0].cond == band(more, is_variant(x, "Some")) and Cluster(c).target(ss[0].args[0])[0] == "self"
    c.ob("kept-response-released", "ScoringHelperResponse", okn, "after a response, the kept one that continues it must be processed next: %s" % [show(e.args[1], 6) for e in ss], where_of(ss[0]) if ss else None)
    # completion
    pp = [e for e in sends(E, "PoisonPill")]
    cov, dj = union([e.cond for e in pp])
    c.ob("completion", "ScoringHelperResponse", cov == done and dj, "helpers must be stopped exactly after the last response; stopped under %s" % showb(cov)[:300], where_of(pp[0]) if pp else None)
    # what is made of the list
    sub_ = [e for e in sends(E, "SubScores")]
    for e in sub_:
        sc = unwrap_copy(proj(e.args[1], ("scores",)))
        c.ob("all-scores-used", "SubScores", restrict(sc, done) is restrict_list(E, fin, single, done, lst) or same_list(sc, lst, more, done), "the sub-scores sent must be the reassembled list; sent %s" % show(sc, 6), where_of(e))
        c.ob("leading-gap-passed-on", "SubScores", asb(restrict(proj(e.args[1], ("first_empty",)), e.cond)) == asb(restrict(first_empty_final(fin), e.cond)), "the leading-gap flag must be passed on", where_of(e))
    cur = restrict(proj(fin, single), done)
    c.ob("list-reset", "ScoringHelperResponse", is_empty_list(cur), "the list must be emptied after completion")


def first_empty_final(fin):
    return proj(fin, ("scoring", "first_empty"))


def same_list(sc, lst, more, done):
    """the same appended list, under the completing condition"""
    a = restrict(sc, done)
    b = restrict(lst, 1)
    return a is b or (a.op == "mut" and b.op == "mut" and a.a[2] is b.a[2] and a.a[0] == b.a[0])


def restrict_list(E, fin, single, done, lst):
    t = restrict(proj(fin, single), done)
    if t.op == "mut" and t.a[0].split("::")[-1] == "clear":
        return t.a[2]
    return t


def lenlike_list(t, lst, c):
    return t.op == "call" and t.a[0].split("::")[-1] == "len" and (t.a[1] is lst or restrict(t.a[1], c) is lst)


def origin_list(E, t, d=0):
    """the list a position-wise updated list started from"""
    while d < 30:
        d += 1
        if t.op == "loopvar" and t in E.loopinfo:
            t = E.loopinfo[t][0]
        elif t.op == "upd":
            t = t.a[0]
        elif t.op == "ite":
            a, b = origin_list(E, t.a[1], d), origin_list(E, t.a[2], d)
            return a if a is b else t
        elif t.op in ("collect",):
            t = t.a[0]
        else:
            return t
    return t


def fill_ok(E, t, init):
    """t: list in which every missing (0.0) entry takes its predecessor, the first one `init`"""
    if t.op != "loopvar" or t not in E.loopinfo:
        return False
    base, step, lid = E.loopinfo[t]
    src = E.lsrc.get(lid)
    if src is None or not is_range(src) or rparts(src)[0] is not const(0) or not lenlike(rparts(src)[1], base):
        return False
    i = elem(src)
    # a separate variable that carries the value stored by the previous iteration
    nv = proj1(step, ("ix", i))
    m = {}
    for x in subterms(step):
        if x.op == "loopvar" and x is not t and x in E.loopinfo and E.loopinfo[x][2] is lid and E.loopinfo[x][1] is nv:
            m[x] = ite(cmp("eq", i, const(0), "usize"), E.loopinfo[x][0], proj1(t, ("ix", sub(i, const(1)))))
    if m:
        step = subst(step, m)
    cur = proj1(t, ("ix", i))
    miss = cmp("eq", cur, const(0), "f32")
    first = cmp("eq", i, const(0), "usize")
    want = update(t, (("ix", i),), ite(miss, ite(first, init, proj1(t, ("ix", sub(i, const(1))))), cur))
    if step is want:
        return True
    got = proj1(step, ("ix", i))
    f = lambda x, cnd: restrict(x, cnd)
    return f(got, band(miss, first)) is init and f(got, band(miss, bnot(first))) is proj1(t, ("ix", sub(i, const(1)))) and f(got, bnot(miss)) in (cur,) and only_index(step, t, i)


def only_index(step, t, i):
    if step is t:
        return True
    if step.op == "ite":
        return only_index(step.a[1], t, i) and only_index(step.a[2], t, i)
    if step.op == "upd":
        return step.a[0] is t and all(not isinstance(k, str) and ixof(k) is i for k, _ in step.a[1])
    return False


def ixof(k):
    if isinstance(k, tuple):
        return k[1]
    if isinstance(k, T) and k.op == "ix":
        return k.a[0]
    return k


def at_least_one_each(n, tot):
    """n <= tot or n == 1"""
    if n is const(1):
        return True
    for x in (n,):
        if x.op == "max" and const(1) in x.a:
            y = x.a[0] if x.a[1] is const(1) else x.a[1]
            return at_least_one_each(y, tot)
        if x.op == "min":
            return any(elim_mod(y) is tot for y in x.a) or any(y.op == "min" and at_least_one_each(y, tot) for y in x.a)
        if x.op == "ite":
            return all(at_least_one_each(y, tot) or (bimp(cc, cmp("le", y, tot, "usize"))) for cc, y in leaves(x))
    return n is tot


def helper_data(c, E, m, x, e):
    """fields of the helper created by the arbiter's factory: taken from the state at that time"""
    fin = self_final(E)
    cand = [y for y in subterms(mk("tuple", *[a for a in x.args if isinstance(a, T)])) if y.op in ("adt", "closure")]
    want = {"edges": ("data_store", "edges"), "edges_in_time": ("scoring", "edges_in_time"), "edge_weight": ("scoring", "edge_weight"), "node_degrees": ("scoring", "node_degrees"), "query_length": ("parameters", "query_length")}
    made = [y for y in E.events if False]
    res = helper_value(c, E, x)
    if not c.ob("helper-built", m, res is not None, "the scoring helper built by the arbiter is not understood", where_of(x)):
        return
    for k, p in want.items():
        v = restrict(proj(res, (k,)), x.cond)
        w = restrict(proj(fin, p), x.cond)
        c.ob("helper-data", "%s: %s" % (m, k), unwrap_copy(v) is unwrap_copy(w), "the helpers score with %s = %s instead of the node's %s" % (k, show(v, 5), ".".join(p)), where_of(x))


def helper_value(c, E, x):
    """return value of the factory closure passed to SyncArbiter::start"""
    r = [v for (i, _), v in E.cbres.items() if i == x.idx]
    return r[0] if len(r) == 1 and isinstance(r[0], T) else None
