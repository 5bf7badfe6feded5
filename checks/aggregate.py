"""P04: values exchanged on the ring are merged once per contribution."""
from exchange import *
from mapops import *
from lists import as_set


def map_writers(c, path, allowed, what):
    """which coordinator handlers write a state field"""
    for m, b in sorted(training_handlers(c).items()):
        E = c.run(b)
        ch = [k for k in changed_paths(self_final(E), SELF) if k[:len(path)] == path or path[:len(k)] == k]
        if not ch:
            continue
        c.ob("writer", "%s by %s" % (what, m), m in allowed, "%s is changed while handling %s" % (what, m))


def additive(c, msg, place, E, r0, inst):
    """merging `msg`'s map into `place`: absent -> value, present -> old + value, for every entry"""
    msgt = sym(c.p.handler("Training", msg)["locals"][2][1] or "msg")
    ms = merges(E, proj(SELF, place))
    ms = [m for m in ms if band(m.cond, r0) != 0]
    if not c.ob("merge-present", inst, ms, "the received %s is not merged into %s" % (msg, ".".join(place))):
        return
    good = 0
    for m in ms:
        src = m.loops[-1] if m.loops else None
        while src is not None and src.op == "seq" and asb(src.a[2]) == 1:
            src = src.a[0]
        okk = src is not None and len(m.loops) == 1 and flat_place(src, ())[0] is msgt and m.key is proj(elem(src), ("0",))
        c.ob("merge-every-entry", inst, okk, "the merge does not go over the entries of the received message: key %s in loop %s" % (show(m.key, 5), [show(x, 4) for x in m.loops]), m.where)
        if not okk:
            continue
        v = proj(elem(src), ("1",))
        c.ob("merge-new-key", inst, restrict(m.absent, r0) is v, "a key this node does not know yet must take the received value; it becomes %s" % show(restrict(m.absent, r0), 5), m.where)
        c.ob("merge-known-key", inst, restrict(m.present, r0) is add(OLD, v), "the value of a known key must be increased by the received value; it becomes %s" % show(restrict(m.present, r0), 5), m.where)
        c.ob("merge-unconditional", inst, drop(m.cond, m.has) == r0, "entries are merged only under %s" % showb(m.cond)[:200], m.where)
        good += 1
    c.ob("merge-once", inst, good == 1, "the received values are merged %d times" % good)


def p04(c):
    R, pf = all_roles(c)
    cl = Cluster(c)
    places = {"NodeDegrees": ("scoring", "node_degrees"), "EdgeWeights": ("scoring", "edge_weight"), "SubScores": ("scoring", "subscores")}
    for msg in ("NodeDegrees", "EdgeWeights"):
        b = c.need(handler_for(c, msg), "handler for " + msg)
        if not b or msg not in pf:
            continue
        E = c.run(b)
        r0, r1 = gate_formulas(E, pf[msg][0], R[pf[msg][1]])
        additive(c, msg, places[msg], E, r0, msg)
    # sub scores: kept under the id of the node that computed them
    b = c.need(handler_for(c, "SubScores"), "handler for SubScores")
    E = c.run(b)
    r0, _ = gate_formulas(E, pf["SubScores"][0], R[pf["SubScores"][1]])
    msgt = sym(b["locals"][2][1] or "msg")
    ms = [m for m in merges(E, proj(SELF, places["SubScores"])) if band(m.cond, r0) != 0]
    okk = len(ms) == 1 and not ms[0].loops and ms[0].key is proj(msgt, ("cluster_node_id",))
    c.ob("subscore-keyed-by-sender", "SubScores", okk, "received sub-scores must be kept under the sender's id; key %s" % [show(m.key, 4) for m in ms])
    if okk:
        v = restrict(ms[0].absent, r0)
        good = v.op == "tuple" and v.a[0] is proj(msgt, ("scores",)) and v.a[1] is proj(msgt, ("first_empty",)) and restrict(ms[0].present, r0) is v
        c.ob("subscore-unchanged", "SubScores", good, "received sub-scores are kept as %s" % show(v, 5))
        c.ob("merge-unconditional", "SubScores", drop(ms[0].cond, ms[0].has) == r0, "sub-scores are kept only under %s" % showb(ms[0].cond)[:200])
    # own sub score: the same values are kept and sent
    b = c.need(c.p.handler("Training", "ScoringHelperResponse"), "handler for ScoringHelperResponse")
    E = c.run(b, proto_opaque(c.p), "proto")
    ss = sends(E, "SubScores")
    own = merges(E, proj(SELF, places["SubScores"]))
    okk = len(ss) == 1 and len(own) == 1
    c.ob("own-subscore", "finalize", okk, "the own sub-scores must be kept once and sent once")
    if okk:
        pl = ss[0].args[1]
        v = restrict(own[0].absent, own[0].cond)
        good = cl.norm(own[0].key) is cl.norm(cl.own) and cl.norm(proj(pl, ("cluster_node_id",))) is cl.norm(cl.own) and v.op == "tuple" and v.a[0] is proj(pl, ("scores",)) and v.a[1] is proj(pl, ("first_empty",))
        c.ob("own-subscore", "kept == sent, under own id", good, "own sub-scores kept under %s as %s but sent as %s" % (show(own[0].key, 5), show(v, 5), show(pl, 5)), where_of(ss[0]))
        c.ob("own-subscore", "kept whenever sent", cl.eq(drop(own[0].cond, own[0].has), ss[0].cond), "own sub-scores are sent under a different condition than they are kept", where_of(ss[0]))
    # transition counts
    b = c.need(handler_for(c, "TransitionCountMessage"), "handler for TransitionCountMessage")
    Eo = c.run(b, proto_opaque(c.p), "proto")
    msgt = sym(b["locals"][2][1] or "msg")
    g = proj(SELF, ("segmentation", "global_transition_count"))
    v = proj(SELF, ("segmentation", "invalid_transition_directions"))
    E = c.run(b)
    r0, r1 = gate_formulas(E, pf["TransitionCountMessage"][0], R[pf["TransitionCountMessage"][1]])
    fin = restrict(self_final(E), band(band(r0, r1), band(cl.has, cl.facts)))
    for pl, k in ((g, "count"), (v, "clockwise_count")):
        got = proj(fin, fieldpath(pl)[1:])
        c.ob("counts-summed", k, got is add(pl, proj(msgt, (k,))), "the received %s must be added once; it becomes %s" % (k, show(got, 5)))
    # own contributions
    b = c.need(c.p.handler("Training", "TranspositionDone"), "handler for TranspositionDone")
    E = c.run(b, proto_opaque(c.p), "proto")
    fin = self_final(E)
    for msg in ("NodeDegrees", "EdgeWeights"):
        for e in sends(E, msg):
            pl = e.args[1]
            f = pl.a[2][0][1] if pl.op == "adt" else pl
            own = proj(fin, places[msg])
            okk = f is own or is_full_copy(f, own)
            c.ob("own-contribution-complete", msg, okk, "the %s sent differs from the own values: %s vs %s" % (msg, show(f, 6), show(own, 5)), where_of(e))
    map_writers(c, ("scoring", "subscores"), {"SubScores", "ScoringHelperResponse"}, "sub-scores")
    map_writers(c, ("scoring", "node_degrees"), {"EdgeEstimationDone", "NodeDegrees"}, "node degrees")
    map_writers(c, ("scoring", "edge_weight"), {"TranspositionDone", "EdgeWeights"}, "edge weights")
    # own values themselves
    edges = proj(SELF, ("data_store", "edges"))
    fin_w = proj(fin, places["EdgeWeights"])
    ms = merges(E, None, ismap=local_map(E, fin_w))
    counted(c, ms, "edge weight", lambda s, k: s is edges and k is elem(s), 1)
    b = c.need(c.p.handler("Training", "EdgeEstimationDone"), "handler for EdgeEstimationDone")
    E = c.run(b, proto_opaque(c.p), "proto")
    nd = proj(self_final(E), places["NodeDegrees"])
    ms = merges(E, None, ismap=local_map(E, nd))
    edges1 = None
    for side in ("from_node", "to_node"):
        mm = [m for m in ms if m.key.op == "field" and m.key.a[1] == side]
        counted(c, mm, "degree of " + side, lambda s, k: k is proj(elem(s), (side,)) and flat_place(as_set(s) or s, ())[1][-1:] == ("edges",), None)
        for m in mm:
            cnd = drop(m.cond, m.has)
            at = [a for a in bsupport(cnd)]
            okk = len(at) == 1 and at[0].op == "call" and at[0].a[0].split("::")[-1] == "insert" and at[0].a[-1] is elem(m.loops[-1]) and cnd == bvar(at[0])
            okk = okk or cnd == 1 and as_set(m.loops[-1]) is not None
            c.ob("degree-per-distinct-edge", side, okk, "the degree must be counted once per distinct edge; it is counted under %s" % showb(cnd)[:200], m.where)
    c.ob("degree-both-ends", "node degrees", len([m for m in ms]) == 2, "an edge must count for both its nodes; %d updates found" % len(ms))


def counted(c, ms, what, srcok, uncond):
    if not c.ob("counted", what, len(ms) == 1, "%s: %d counting sites found, expected 1" % (what, len(ms))):
        return
    m = ms[0]
    c.ob("counted-every-edge", what, len(m.loops) == 1 and srcok(m.loops[0], m.key), "%s is not counted once per edge (key %s in loop %s)" % (what, show(m.key, 5), [show(x, 4) for x in m.loops]), m.where)
    full = drop(m.cond, m.has)
    c.ob("counted-first", what, restrict(m.absent, full) is const(1), "first occurrence counts as %s" % show(m.absent, 4), m.where)
    c.ob("counted-more", what, restrict(m.present, full) is add(OLD, const(1)), "further occurrence gives %s" % show(m.present, 4), m.where)
    if uncond:
        c.ob("counted-unconditional", what, full == 1, "%s counted only under %s" % (what, showb(full)[:200]), m.where)


def is_full_copy(f, own):
    """f collects (k, v) for every entry of own"""
    if f.op == "collect":
        f = f.a[0]
    if f.op != "seq":
        return False
    src, el, cond = f.a[0], f.a[1], f.a[2]
    if src is not own or asb(cond) != 1:
        return False
    e = elem(own)
    return el is e or (el.op == "tuple" and len(el.a) == 2 and el.a[0] is proj(e, ("0",)) and el.a[1] is proj(e, ("1",)))
