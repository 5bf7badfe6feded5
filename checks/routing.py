"""P09 segment ownership and lossless routing; P10 which steps of the trajectory are transitions."""
from graph import *
from tab import *

PAR = proj(SELF, ("parameters",))
RATE = proj(PAR, ("rate",))
NCN = proj(PAR, ("n_cluster_nodes",))
TRANS = proj(SELF, ("data_store", "transitions"))
DONE = ("first", "last")


def grid_owner(consts=()):
    for n in list(range(1, 6)) + [k + d for k in consts[:4] for d in (0, 1) if k < 200]:
        for r in [n, n + 1, 2 * n + 1, 3 * n - 1 if n > 1 else 3, 11, 16] + [k + d for k in consts[:4] for d in (-1, 0, 1, k)]:
            if r < n:
                continue
            f = r // n
            for s in range(r) if r < 40 else sorted({x % r for x in [0, 1, f - 1, f, f + 1, r - 1, r - 2, r // 2] + [k + d for k in consts for d in (-1, 0, 1)]}):
                yield n, r, s, min(s // f, n - 1), f


def assign_fn(c):
    """the ownership function of the code: s -> term"""
    bs = fnbody(c, "segment_id_to_assignment", "Parameters") or fnbody(c, "segment_id_to_assignment")
    if not c.need(bs, "segment_id_to_assignment"):
        return None
    b = bs[0]
    isp = base(b.get("self_ty") or "") == "Parameters"

    def A(s):
        return c.run(b, args=[PAR if isp else SELF, s], okey="A").ret
    return A


def check_owner(c, A):
    s = sym("s")
    t = A(s)
    w = same_function(t, None, (({NCN: const(n), RATE: const(r), s: const(x)}, o) for n, r, x, o, f in grid_owner(consts_in(t))))
    c.ob("owner-function", "segment -> cluster node", w is None, "every segment must belong to node min(segment / floor(rate/nodes), nodes-1): %s" % w)


def point(t):
    """the point behind references and copies"""
    while True:
        if t.op == "call" and t.a[0].split("::")[-1] in ("new", "clone", "deref_clone", "lock", "into_ref", "deref") and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "adt" and t.a[0].split("::")[-1] == "PointRef":
            t = dict(t.a[2])["0"]
        else:
            return t


def bare(t):
    """a point, ignoring whether it is held through a shared reference"""
    t = point(t)
    while t.op == "field" and t.a[1] == "0":
        t = point(t.a[0])
    return t


def seg(t):
    """segment of a point (through a shared reference if it is one)"""
    return proj(t, ("segment",))


def ends(t):
    """(from, to) of a (materialised) transition value"""
    while t.op == "call" and t.a[0].split("::")[-1] in ("new", "clone", "deref_clone") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "adt" and t.a[0].split("::")[-1] in ("Transition", "MaterializedTransition"):
        d = dict(t.a[2])
        return point(d["from_point"]), point(d["to_point"])
    return point(proj(t, ("from_point",))), point(proj(t, ("to_point",)))


def bares(t):
    a, b = ends(t)
    return bare(a), bare(b)


def resolve(t):
    """get(insert(m, k, v), k) is v"""
    for _ in range(6):
        m = {}
        for x in subterms(t):
            if x.op == "call" and x.a[0].split("::")[-1] in ("get", "get_mut") and len(x.a) == 3 and x.a[1].op == "mut" and x.a[1].a[0].split("::")[-1] == "insert" and len(x.a[1].a) == 5 and x.a[1].a[3] is x.a[2]:
                m[x] = some(x.a[1].a[4])
        if not m:
            return t
        t = subst(t, m)
    return t


def list_adds(E, place, when=1):
    """[(value, cond, loops, event)] for every value added to the list at place (also if it was replaced by an empty one before)"""
    out = []
    at = flat_place(place, ())
    for e in E.events:
        if e.kind != "call" or not e.args or band(e.cond, when) == 0 or e.name not in ADD1 + ADDN:
            continue
        if origin(E, e.args[0]) is not place and place_of(e.raw[0]) != at:
            continue
        if e.name in ADD1 and len(e.args) == 2:
            out.append((resolve(e.args[1]), e.cond, tuple(e.loops), e))
        elif e.name in ADDN and len(e.args) == 2:
            a = seq_of(e.args[1])
            out.append((resolve(a.val), band(e.cond, a.cond), tuple(e.loops) + (a.src,), e))
    res = []
    for v, cd, loops, e in out:
        # a loop over a literal with a single item
        for s in loops:
            if s.op == "array" and len(s.a) == 1:
                m = {elem(s): s.a[0]}
                v, cd, loops = subst(v, m), asb(subst(boolt(cd), m)), tuple(subst(x, m) for x in loops if x is not s)
        res.append((v, cd, loops, e))
    return res


def consecutive(E, a, b, loops):
    """a directly precedes b in the list the (single) loop goes over: condition under which both exist, else None"""
    if len(loops) != 1:
        return None
    src = loops[0]
    # previous element kept in a variable
    a, b = bare(a), bare(b)
    if bare(elem(src)) is b and a.op == "field":
        x = a
        while x.op == "field":
            x = x.a[0]
        if x.op == "loopvar" and x in E.loopinfo:
            init, step, lid = E.loopinfo[x]
            if is_none(init) and step is not None and E.lsrc.get(lid) is src:
                v = step
                if asb(boolt(is_variant(v, "Some"))) == 1 and bare(proj(v, ("Some.0",))) is b:
                    return is_variant(x, "Some"), proj(SELF, ("data_store", "points")) is strip_list(src)
    # windows(2) / zip with the rest
    if is_call(src, "windows") and src.a[2] is const(2):
        if a is bare(proj1(elem(src), ("ix", const(0)))) and b is bare(proj1(elem(src), ("ix", const(1)))):
            return 1, strip_list(src.a[1]) is proj(SELF, ("data_store", "points"))
    if src.op == "zip":
        l, r = src.a[0], src.a[1]
        if is_call(r, "skip") and r.a[2] is const(1) and r.a[1] is l and a is bare(elem(l)) and b is bare(elem(r)):
            return 1, strip_list(l) is proj(SELF, ("data_store", "points"))
    return None


def is_none(t):
    return asb(boolt(is_variant(t, "Some"))) == 0


def strip_list(t):
    while True:
        if t.op == "call" and t.a[0].split("::")[-1] in ("to_vec", "clone", "iter", "into_iter", "cloned", "copied", "deref") and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "collect":
            t = t.a[0]
        else:
            return t


def panics(E):
    r = 0
    for e in E.events:
        if e.kind == "panic":
            r = bor(r, e.cond)
    return r


def routed(c, cl, A, E, inst, maps, when, pair):
    """a valid step is appended for its owner and stored if the owner is this node. returns the validity condition"""
    own = cl.norm(cl.own)
    ms = [m for m in maps if band(m.cond, when) != 0]
    if not c.ob("routed-by-owner", inst, len(ms) == 1, "%s: found %d places that collect transitions for other nodes, expected 1" % (inst, len(ms))):
        return None
    m = ms[0]
    V = drop(m.cond, m.has)
    val = None
    for v, b0 in ((m.absent, sym("EMPTY")), (m.present, OLD)):
        v = restrict(v, V)
        ok_ = v.op == "append" and v.a[0] is b0
        c.ob("routed-append", "%s, %s" % (inst, "first" if b0 is not OLD else "further"), ok_, "%s: the transition must be appended to what was collected for that node; it becomes %s" % (inst, show(v, 5)), m.where)
        if ok_:
            val = v.a[1] if val is None or val is v.a[1] else False
    if not c.ob("routed-append", inst + ", same", val, "%s: the collected transition depends on whether it is the first for its node" % inst, m.where):
        return None
    a, b = ends(val)
    key = cl.norm(restrict(m.key, V))
    c.ob("routed-to-owner", inst, key is cl.norm(restrict(A(seg(a)), V)), "%s: a transition must go to the node that owns its first segment; it goes to %s" % (inst, show(key, 6)), m.where)
    dom = pair(E, a, b, m.loops)
    if not c.ob("routed-step", inst, dom is not None, "%s: the transition must join two consecutive points; it joins %s and %s" % (inst, show(a, 6), show(b, 6)), m.where):
        return None
    adds = list_adds(E, TRANS, when)
    if c.ob("stored-once", inst, len(adds) == 1, "%s: an own transition is added %d times" % (inst, len(adds))):
        v, cd, loops, e = adds[0]
        c.ob("stored-same", inst, bares(v) == (bare(a), bare(b)) and loops == tuple(m.loops), "%s: the transition stored (%s) differs from the one collected" % (inst, show(v, 5)), where_of(e))
        want = band(V, cmp("eq", A(seg(a)), cl.own, "usize"))
        np = bnot(panics(E))
        c.ob("stored-iff-own", inst, cl.eq(band(cd, np), band(want, np)), "%s: a transition must be stored here exactly if this node owns its first segment; it is stored under %s" % (inst, showb(cd)[:300]), where_of(e))
    return V, a, b, dom


def segment_payload(c, cl, E, inst, ismap, when):
    ss = [e for e in sends(E, "SegmentMessage") if band(e.cond, when) != 0]
    c.ob("peer-payload", inst + " sends", ss, "%s: no transitions are sent to the peers" % inst)
    for e in ss:
        t = cl.target(e.args[0])
        pl = proj(e.args[1], ("segments",))
        if not c.ob("peer-payload", inst + " target", t[0] == "each-peer", "%s: transitions are sent to %s" % (inst, t[0]), where_of(e)):
            continue
        got = keyed_payload(pl, e.cond, ismap, t[1])
        c.ob("peer-payload", inst, got, "%s: every peer must get exactly the transitions collected for it; peer %s gets %s" % (inst, show(t[1], 3), show(pl, 6)), where_of(e))


def keyed_payload(pl, cond, ismap, key):
    """pl == map[key] or an empty list"""
    rs = [x for x in subterms(pl) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get", "get_mut") and len(x.a) == 3]
    rs += [x for at in bsupport(cond) for x in subterms(at) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and len(x.a) == 3]
    rs = [x for x in rs if ismap(x.a[1])]
    if not rs:
        return False
    for r in set(rs):
        if r.a[2] is not key:
            return False
    r = rs[0]
    h = is_variant(r, "Some")
    if band(cond, h) != 0:
        v = restrict(pl, band(cond, h))
        v = strip_list(v)
        if v is not proj(r, ("Some.0",)) and not (is_call(v, "unwrap_or_default") and v.a[1] is r):
            return False
    if band(cond, bnot(h)) != 0:
        v = restrict(pl, band(cond, bnot(h)))
        if not is_empty_list(v) and not (is_call(v, "unwrap_or_default") and v.a[1] is r):
            return False
    return True


def through(E, t, ismap):
    """t is (a later state of) the map recognised by ismap"""
    for _ in range(40):
        if ismap(t):
            return True
        if t.op == "mut":
            t = t.a[2]
        elif t.op == "loopvar" and t in E.loopinfo:
            t = E.loopinfo[t][0]
        elif t.op == "call" and t.a[0].split("::")[-1] == "clone":
            t = t.a[1]
        elif t.op == "ite":
            return through(E, t.a[1], ismap) and through(E, t.a[2], ismap)
        else:
            return False
    return False


def local_steps(c, cl, A):
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "RotationDoneMessage"), "handler for RotationDoneMessage")
    if not b:
        return None
    E = c.run(b, op, "proto")
    sc = asb(proj(PAR, ("self_correction",)))
    when = band(bnot(sc), 1)
    fin = self_final(E)
    wait = band(when, cl.has)
    w0 = bnot(asb(proj(SELF, ("segmentation", "waits_for_first_point"))))
    tf = restrict(proj(fin, ("segmentation", "transitions_for_nodes")), band(wait, w0, asb(proj(fin, ("segmentation", "waits_for_first_point")))))
    if not c.ob("collected-kept", "while waiting", tf.op == "loopvar", "the collected transitions must be kept while waiting for the next node's first point; kept is %s" % show(tf, 4)):
        return None
    ismap = local_map(E, tf)
    maps = [m for m in merges(E, None, ismap=ismap)]
    r = routed(c, cl, A, E, "own points", maps, when, lambda E, a, b, loops: consecutive(E, a, b, loops))
    if r:
        V, a, bb, (dom, ispts) = r
        c.ob("routed-all-points", "own points", ispts, "the steps must be taken over all points of this node")
    segment_payload(c, cl, E, "own points", lambda t: through(E, t, ismap), when)
    return r


def border_step(c, cl, A):
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "SendFirstPointMessage"), "handler for SendFirstPointMessage")
    if not b:
        return None
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    place = proj(SELF, ("segmentation", "transitions_for_nodes"))
    lp = proj(SELF, ("segmentation", "last_point", "Some.0"))

    def pair(E, x, y, loops):
        return (1, True) if not loops and bare(x) is bare(lp) and bare(y) is bare(proj(msg, ("point",))) else None
    r = routed(c, cl, A, E, "border step", merges(E, place), 1, pair)
    segment_payload(c, cl, E, "border step", lambda t: origin(E, t) is place or (origin(E, t).op == "call" and contains(t, lambda x: x is place)), 1)
    return r


def gate_received(E, path):
    rec = [e for e in E.events if e.kind == "call" and e.name == "received" and place_of(e.raw[0])[1] == tuple(path)]
    return asb(mk("call", rec[0].fn, rec[0].args[0], rec[0].args[1])) if len(rec) == 1 else None


def own_as(cl, t, x=sym("own"), n=sym("n")):
    """express t with the own index and the number of nodes as plain variables"""
    o = cl.own
    ss = [y for y in subterms(o) if y.op == "call" and y.a[0].split("::")[-1] == "sum"]
    ks = [y for y in ss if contains(y, lambda z: z is cl.nodes) and not (y.a[1].op == "adt" and y.a[1].a[0].endswith("Range"))]
    if len(ks) == 1:
        t = subst(t, {ks[0]: sub(add(o, ks[0]), x)})
    return subst(t, {cl.n_param: n, cl.peers: sub(n, const(1))})


def received_segments(c, cl):
    b = c.need(c.p.handler("Training", "SegmentMessage"), "handler for SegmentMessage")
    E = c.run(b, proto_opaque(c.p), "proto")
    msg = sym(b["locals"][2][1] or "msg")
    adds = list_adds(E, TRANS)
    if c.ob("received-stored", "SegmentMessage", len(adds) == 1, "received transitions are added at %d places" % len(adds)):
        v, cd, loops, e = adds[0]
        src = proj(msg, ("segments",))
        okk = len(loops) == 1 and strip_list(loops[0]) is src and bares(v) == bares(elem(loops[0]))
        c.ob("received-stored", "each, unchanged", okk, "every received transition must be stored unchanged; stored is %s for each of %s" % (show(v, 6), [show(x, 4) for x in loops]), where_of(e))
        g = gate_received(E, proto_fields(c.p)["SegmentMessage"][0])
        c.ob("received-stored", "unconditionally", g is not None and no_panic(cd) == g, "received transitions are stored only under %s" % showb(cd)[:200], where_of(e))


def inter_fields(v):
    d = dict(v.a[2]) if v.op == "adt" and v.a[0].split("::")[-1] == "Intersection" else None
    return d


def intersections(c, cl, A):
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "IntersectionResultMessage"), "handler for IntersectionResultMessage")
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    res = proj(msg, ("results",))
    store = proj(SELF, ("data_store", "intersections"))
    foreign = proj(SELF, ("intersection_calculation", "foreign_intersections"))
    r = elem(res)
    ownc = cmp("eq", A(proj(r, ("segment_id",))), cl.own, "usize")
    adds = list_adds(E, store)
    if c.ob("result-stored", "own segment", len(adds) == 1, "own intersections are added at %d places" % len(adds)):
        v, cd, loops, e = adds[0]
        c.ob("result-stored", "own segment only", len(loops) == 1 and strip_list(loops[0]) is res and cl.eq(no_panic(cd), ownc), "an intersection must be stored here exactly if this node owns its segment; it is stored under %s" % showb(cd)[:300], where_of(e))
        inter_ok(c, v, r, "stored", e)
        v0 = v
    else:
        v0 = None
    ms = [m for m in merges(E, foreign) if m.loops]
    if c.ob("result-kept", "foreign segment", len(ms) == 1, "foreign intersections are kept at %d places" % len(ms)):
        m = ms[0]
        V = drop(m.cond, m.has)
        c.ob("result-kept", "condition", cl.eq(no_panic(V), bnot(ownc)) and len(m.loops) == 1 and strip_list(m.loops[0]) is res, "an intersection of a foreign segment must be kept for its owner; it is kept under %s" % showb(V)[:300], m.where)
        c.ob("result-kept", "key", m.key is proj(r, ("segment_id",)), "kept under %s instead of its segment" % show(m.key, 4), m.where)
        a, p_ = restrict(m.absent, V), restrict(m.present, V)
        okk = a.op == "append" and p_.op == "append" and a.a[0] is sym("EMPTY") and p_.a[0] is OLD and a.a[1] is p_.a[1]
        c.ob("result-kept", "all", okk, "kept intersections become %s / %s" % (show(a, 4), show(p_, 4)), m.where)
        if okk:
            inter_ok(c, a.a[1], r, "kept for its owner", None)
    # distribution: from both places that start it
    n = 0
    for m_ in ("IntersectionResultMessage", "SegmentedMessage"):
        b = c.p.handler("Training", m_)
        if not b:
            continue
        E = c.run(b, op, "proto")
        for e in sends(E, "IntersectionRotationMessage"):
            n += 1
            t = cl.target(e.args[0])
            pl = proj(e.args[1], ("intersection_coords_by_segment",))
            inst = "distributed by " + m_
            if not c.ob("foreign-distributed", inst + " to peers", t[0] == "each-peer", "intersections are sent to %s" % t[0], where_of(e)):
                continue
            foreign_payload(c, cl, A, E, inst, pl, t[1], foreign, e)
    c.floor("distribution of foreign intersections", n, 1)
    # received
    b = c.need(c.p.handler("Training", "IntersectionRotationMessage"), "handler for IntersectionRotationMessage")
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    src = proj(msg, ("intersection_coords_by_segment",))
    adds = list_adds(E, store)
    if c.ob("foreign-received", "stored", len(adds) == 1, "received intersections are added at %d places" % len(adds)):
        v, cd, loops, e = adds[0]
        okk = len(loops) == 2 and strip_list(loops[0]) is src and loops[1] is proj(elem(loops[0]), ("1",)) and v is elem(loops[1])
        if len(loops) == 2 and is_call(loops[0], "into_values"):
            okk = strip_list(loops[0].a[1]) is src and loops[1] is elem(loops[0]) and v is elem(loops[1])
        c.ob("foreign-received", "each, unchanged", okk, "every received intersection must be stored unchanged; stored is %s for each of %s" % (show(v, 5), [show(x, 4) for x in loops]), where_of(e))
        g = gate_received(E, proto_fields(c.p)["IntersectionRotationMessage"][0])
        mine = cmp("eq", A(proj(elem(loops[0]), ("0",))), cl.own, "usize") if loops else 1
        c.ob("foreign-received", "own ones", g is not None and (cl.eq(no_panic(cd), band(g, mine)) or cl.eq(no_panic(cd), g)), "received intersections are stored only under %s" % showb(cd)[:300], where_of(e))


def inter_ok(c, v, r, what, e):
    d = inter_fields(v)
    if not c.ob("intersection-contents", what, d is not None, "the %s intersection is %s" % (what, show(v, 4)), where_of(e)):
        return
    tr = proj(r, ("transition",))
    fid = [k for k, x in d.items() if k.endswith("id") and k != "segment_id"]
    for k, x in d.items():
        if k == "segment_id":
            c.ob("intersection-contents", what + " segment", x is proj(r, ("segment_id",)), "segment of the %s intersection is %s" % (what, show(x, 4)), where_of(e))
        elif k == "coordinates":
            c.ob("intersection-contents", what + " coordinates", strip_copy(x) is proj(r, ("intersection",)), "coordinates of the %s intersection are %s" % (what, show(x, 4)), where_of(e))
        elif "point" in k:
            c.ob("intersection-contents", what + " point", x is proj(point(proj(tr, ("from_point",))), ("id",)) or x is proj(tr, ("from_point", "0", "id")), "the %s intersection belongs to point %s instead of the transition's first point" % (what, show(x, 4)), where_of(e))


def foreign_payload(c, cl, A, E, inst, pl, peer, foreign, e):
    isf = lambda t: origin(E, t) is foreign or (origin(E, t).op == "loopvar" and False)
    if is_empty_list(pl) or pl.op == "collect" and pl.a[0].op != "seq":
        c.ob("foreign-distributed", inst, False, "%s: peers get %s" % (inst, show(pl, 4)), where_of(e))
        return
    if pl.op in ("collect", "seq"):
        s = pl.a[0] if pl.op == "collect" else pl
        src, val, cond = s.a[0], s.a[1], asb(s.a[2])
        rng = strip_list(src)
        if rng.op == "adt" and rng.a[0].split("::")[-1] in ("Range", "RangeInclusive"):
            d, k = dict(rng.a[2]), elem(src)
            got = val.a[1] if val.op == "tuple" and len(val.a) == 2 else val
            x = got.a[0] if got.op == "field" and got.a[1] == "Some.0" else None
            if x is None and is_call(got, "clone"):
                x = got.a[1].a[0] if got.a[1].op == "field" else None
            okk = rng.a[0].split("::")[-1] == "Range" and d["start"] is const(0) and d["end"] is RATE and val.op == "tuple" and val.a[0] is k
            okk = okk and x is not None and x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and isf(x.a[1]) and x.a[2] is k
            okk = okk and cl.eq(drop(cond, is_variant(x, "Some")), cmp("eq", A(k), peer, "usize"))
            c.ob("foreign-distributed", inst, okk, "%s: a peer must get the intersections of exactly the segments it owns; it gets %s" % (inst, show(s, 5)), where_of(e))
            return
        okk = isf(strip_list(src)) and (val is elem(src) or val.op == "tuple" and val.a[0] is proj(elem(src), ("0",)) and val.a[1] is proj(elem(src), ("1",))) and cl.eq(cond, cmp("eq", A(proj(elem(src), ("0",))), peer, "usize"))
        c.ob("foreign-distributed", inst, okk, "%s: a peer must get the intersections of all its segments; it gets %s" % (inst, show(s, 5)), where_of(e))
        return
    ms = merges(E, None, ismap=local_map(E, pl))
    if not c.ob("foreign-distributed", inst + " collected", len(ms) == 1, "%s: %d places fill the message for a peer" % (inst, len(ms)), where_of(e)):
        return
    m = ms[0]
    V = drop(m.cond, m.has)
    base_c = e.cond
    src = m.loops[-1]
    val = restrict(m.absent, V)
    good = restrict(m.present, V) is val
    if strip_list(src).op == "adt" and src.a[0].split("::")[-1] == "Range":
        d = dict(src.a[2])
        k = elem(src)
        good = good and d["start"] is const(0) and d["end"] is RATE and m.key is k
        x = val.a[0] if val.op == "field" and val.a[1] == "Some.0" else None
        if x is None and is_call(val, "clone"):
            x = val.a[1].a[0] if val.a[1].op == "field" else None
        good = good and x is not None and x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and isf(x.a[1]) and x.a[2] is k
        if good:
            V = drop(V, is_variant(x, "Some"))
            want = cmp("eq", A(k), peer, "usize")
            good = cl.eq(band(V, base_c), band(want, base_c))
    else:
        k = proj(elem(src), ("0",))
        good = good and isf(strip_list(src)) and m.key is k and strip_copy(val) is proj(elem(src), ("1",)) and cl.eq(band(V, base_c), band(cmp("eq", A(k), peer, "usize"), base_c))
    c.ob("foreign-distributed", inst, good, "%s: a peer must get the intersections of exactly the segments it owns: segment %s if %s" % (inst, show(m.key, 4), showb(V)[:300]), m.where)


def own_range(c, cl, A):
    """clustering starts at or before the first own segment and covers up to the last segment"""
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "IntersectionCalculationDone"), "handler for IntersectionCalculationDone")
    E = c.run(b, op, "proto")
    cur = ("node_estimation", "current_segment_id")
    v = cl.norm(proj(self_final(E), cur))
    w = same_function(own_as(cl, v), None,
                      (({sym("own"): const(o), sym("n"): const(n), RATE: const(r)}, (r // n) * o) for n in range(1, 6) for r in (n, n + 3, 2 * n + 1, 17) for o in range(n)))
    c.ob("clustering-start", "first own segment", w is None, "nodes must be estimated from the first own segment on: %s" % w)
    b = c.need(c.p.handler("Training", "ClusteringResponse"), "handler for ClusteringResponse")
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    fin = self_final(E)
    nxt = add(proj(SELF, cur), const(1))
    # panics aside, the segment always advances by one
    got = proj(fin, cur)
    c.ob("clustering-advance", "by one", got is nxt, "after a segment the next one must be estimated; it goes on with %s" % show(got, 4))
    more = cmp("lt", nxt, RATE, "usize")
    # continues while there are segments: reads the intersections of that segment / asks afterwards
    look = [e for e in E.events if e.kind == "call" and e.name == "get" and origin(E, e.args[0]) is proj(SELF, ("data_store", "index", "intersections"))]
    c.ob("clustering-continue", "next segment", look and all(e.args[1] is nxt for e in look) and union_no_panic(look) == more, "the intersections of the next segment must be clustered while there are segments left: %s" % [(show(e.args[1], 3), showb(no_panic(e.cond))[:120]) for e in look])
    # every clustered intersection becomes a node of the store with its label
    nodes = list_adds(E, proj(SELF, ("data_store", "nodes")))
    ci = proj(SELF, ("node_estimation", "current_intersections"))
    lab = proj(msg, ("labels",))
    if c.ob("node-per-intersection", "stored", len(nodes) == 1, "estimated nodes are added at %d places" % len(nodes)):
        v, cd, loops, e = nodes[0]
        src = loops[0] if len(loops) == 1 else None
        if src is not None and src.op in ("collect",):
            a = seq_of(src)
            v, src = subst(v, {elem(src): a.val}), a.src
        adds = listadds(E, src) if src is not None and src.op == "loopvar" else None
        if adds and adds[0] is None and len(adds[1]) == 1:
            a = adds[1][0]
            if v is elem(src):
                v, src, cd = a.val, a.src, band(cd, a.cond)
        okk = src is not None and src.op == "zip" and {strip_list(src.a[0]), strip_list(src.a[1])} == {ci, lab}
        if okk:
            x = elem(src.a[0]) if strip_list(src.a[0]) is ci else elem(src.a[1])
            l = elem(src.a[0]) if strip_list(src.a[0]) is lab else elem(src.a[1])
            d = node_fields(v)
            okk = d is not None and d.get("cluster") is l and fieldpath_from(d.get("segment"), x, ("segment_id", "segment")) and fieldpath_from(d.get("from_point_id"), x, ("from_point_id",))
        c.ob("node-per-intersection", "pairs intersection and label", okk, "every clustered intersection must become a node of its segment, point and label; stored is %s for each of %s" % (show(v, 6), [show(x, 5) for x in loops]), where_of(e))
        empty = cmp("eq", mk("call", "std::vec::Vec::len", lab), const(0), "usize")
        cc = no_panic(cd)
        extra = [a for a in bsupport(cc) if not contains(a, lambda y: y is lab)]
        c.ob("node-per-intersection", "unconditional", not extra, "nodes are stored only under %s" % showb(cc)[:200], where_of(e))
    asks = [e for e in E.events if e.kind == "call" and e.name == "start" and origin(E, e.args[0]) is proj(SELF, proto_fields(c.p)["AskForForeignNodes"][0])]
    fin_s = [e for e in sends(E, "NodeEstimationDone")]
    c.ob("clustering-continue", "then foreign nodes", asks and all(cl.eq(no_panic(e.cond), band(bnot(more), cl.has)) for e in asks), "the foreign nodes must be asked for after the last segment; asked under %s" % [showb(no_panic(e.cond))[:200] for e in asks])
    c.ob("clustering-continue", "then done (single node)", fin_s and cl.eq(union_no_panic(fin_s), band(bnot(more), bnot(cl.has))), "without peers the nodes are complete after the last segment; reported under %s" % [showb(no_panic(e.cond))[:200] for e in fin_s])


def union_no_panic(es):
    r = 0
    for e in es:
        r = bor(r, no_panic(e.cond))
    return r


def node_fields(v):
    while v.op == "call" and v.a[0].split("::")[-1] in ("new", "into_ref", "clone") and len(v.a) == 2:
        v = v.a[1]
    return dict(v.a[2]) if v.op == "adt" and v.a[0].split("::")[-1] == "IndependentNode" else None


def fieldpath_from(t, root, last):
    if t is None:
        return False
    k = None
    while t.op == "field":
        k = k or t.a[1]
        t = t.a[0]
    return t is root and k in last


from output import strip_copy, no_panic  # noqa: E402


def p09(c):
    cl = Cluster(c)
    A = assign_fn(c)
    if A is None:
        return
    check_owner(c, A)
    local_steps(c, cl, A)
    border_step(c, cl, A)
    received_segments(c, cl)
    intersections(c, cl, A)
    own_range(c, cl, A)


# ---------------------------------------------------------------- P10

def steps_grid(rates=(2, 3, 4, 5, 8, 9), consts=()):
    for r in rates:
        for f in range(r):
            for t in range(r):
                yield r, f, t, f != t and (t - f) % r <= r // 2
    for k in consts:
        for r in (k, k + 1, 2 * k, 2 * k + 1, 2 * k + 2, 2 * k + 5):
            ps = sorted({p % r for p in (0, 1, k - 2, k - 1, k, k + 1, r // 2 - 1, r // 2, r // 2 + 1, r - k, r - k - 1, r - k + 1, r - 2, r - 1)})
            for f in ps:
              for t in ps:
                yield r, f, t, f != t and (t - f) % r <= r // 2


def validity(c, E, inst, r, when=1):
    V, a, b, (dom, _) = r
    sa, sb = seg(a), seg(b)
    np = bnot(panics(E))
    mine = {sa, sb, RATE}

    def leafs(t):
        return {x for x in subterms(t) if x.op in ("sym", "loopvar", "elem")}
    def ours(at):
        t = subst(at, {sa: sym("f"), sb: sym("t"), RATE: sym("r")})
        return {x.a[0] for x in subterms(t) if x.op == "sym"} <= {"f", "t", "r"} and not any(x.op in ("loopvar", "elem", "field", "call") and not (x.op == "call" and x.a[0].split("::")[-1] in ("abs", "unsigned_abs", "rem_euclid", "abs_diff", "mod_floor")) for x in subterms(t))
    core = bexists(band(V, np), lambda x: not ours(x))
    full = band(core, dom, np)
    w0 = 1
    for at in bsupport(V):
        if at.op == "eq" or not ours(at):
            w0 = w0
    got = band(V, np)
    # the handler's own entry condition (message accepted, not self-correcting) may remain
    ext = bexists(got, ours)
    c.ob("step-condition-only-segments", inst, band(core, ext) == got and extra_ok(ext, dom, np, E), "%s: whether a step counts must depend only on the two segments; it also depends on %s" % (inst, showb(ext)[:250]))
    t = subst(boolt(core), {sa: sym("f"), sb: sym("t"), RATE: sym("r")})
    w = same_function(t, None, (({sym("r"): const(x), sym("f"): const(f), sym("t"): const(y)}, v) for x, f, y, v in steps_grid(consts=consts_in(t))))
    c.ob("step-valid", inst, w is None, "%s: a step is a transition exactly if it enters another segment by at most half a turn forward: %s" % (inst, w))


def extra_ok(ext, dom, np, E):
    """left-over conditions: both points exist; the own points are waiting for the neighbour's; no panic"""
    allowed = set(bsupport(dom)) | set(bsupport(np))
    for at in bsupport(ext):
        if at in allowed:
            continue
        p = fieldpath(at.a[0]) if at.op == "is" else fieldpath(at)
        if p and p[:2] == ("self", "segmentation") and p[2] in ("waits_for_first_point", "last_point", "last_transition"):
            continue
        return False
    return True


def innermost_ranges(t, loops):
    """ranges whose element occurs in t or in the loops"""
    rs = []
    for l in list(loops) + [t]:
        for x in subterms(l):
            if x.op == "adt" and x.a[0].split("::")[-1] in ("Range", "RangeInclusive") and x not in rs:
                rs.append(x)
            elif x.op == "call" and x.a[0].endswith("RangeInclusive::new") and x not in rs:
                rs.append(x)
    return [r for r in rs if contains(t, lambda y: y is elem(r))]


def range_bounds(r):
    if r.op == "call":
        return r.a[1], add(r.a[2], const(1))
    d = dict(r.a[2])
    if r.a[0].split("::")[-1] == "RangeInclusive":
        return d["start"], add(d["end"], const(1))
    return d["start"], d["end"]


def crossings(c, cl):
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "SegmentedMessage"), "handler for SegmentedMessage")
    E = c.run(b, op, "proto")
    pairs = proj(SELF, ("intersection_calculation", "pairs"))
    adds = list_adds(E, pairs)
    if not c.ob("crossings", "enumerated", len(adds) == 1, "the crossed segments are collected at %d places" % len(adds)):
        return
    v, cd, loops, e = adds[0]
    tr = elem(loops[0]) if loops else None
    okk = v.op == "tuple" and len(v.a) == 4 and len(loops) == 2 and strip_list(loops[0]) is TRANS and v.a[0] is tr
    if not c.ob("crossings", "for every transition", okk, "every stored transition must be intersected; collected is %s for each of %s" % (show(v, 4), [show(x, 3) for x in loops]), where_of(e)):
        return
    nonempty = cmp("lt", const(0), mk("call", "std::vec::Vec::len", TRANS), "usize")
    c.ob("crossings", "unconditionally", extra_len(cd, TRANS), "crossed segments are collected only under %s" % showb(cd)[:200], where_of(e))
    fs, ts = proj(tr, ("from_point", "0", "segment")), proj(tr, ("to_point", "0", "segment"))
    rs = innermost_ranges(v.a[1], loops)
    bad = None
    if len(rs) != 1:
        bad = "the segment is %s" % show(v.a[1], 5)
    else:
        lo, hi = range_bounds(rs[0])
        for r, f, t, okv in steps_grid((2, 3, 4, 5, 8, 9, 12), consts_in(mk('tuple', lo, hi, v.a[1]))):
            if not okv or bad:
                continue
            env = {fs: const(f), ts: const(t), RATE: const(r)}
            a_, b_ = value(lo, env), value(hi, env)
            if a_ is None or b_ is None:
                bad = "the number of crossed segments is not a function of the transition's segments"
                break
            ids = [value(v.a[1], {**env, elem(rs[0]): const(i)}) for i in range(int(a_), int(b_))]
            want = [(f + i) % r for i in range(1, (t - f) % r + 1)]
            if ids != want:
                bad = "rate=%d, from segment %d to %d: segments %s instead of %s" % (r, f, t, ids, want)
    c.ob("crossings", "segments passed", bad is None, "a transition must be intersected with every segment it enters, in order: %s" % bad, where_of(e))
    import geometry
    try:
        if len(rs) != 1:
            raise geometry.Unknown("")
        bl, bp, _ = geometry.task_points(E, v, loops, rs)
        c.ob("crossings", "line through both points", bl is None, "the line must go through the transition's two points: %s" % bl, where_of(e))
        c.ob("crossings", "plane of that segment", bp is None, "the plane must be the one of the crossed segment: %s" % bp, where_of(e))
    except (geometry.Unknown, ZeroDivisionError, TypeError, IndexError):
        by_form(c, v, tr, e)
    tasks(c, E, pairs)


def by_form(c, v, tr, e):
    """line and plane where their formulas cannot be read off as a whole"""
    lp = v.a[2]
    pts = [x for x in subterms(lp) if x.op == "field" and x.a[1] == "coordinates"]
    want = [proj(tr, (k, "0", "coordinates")) for k in ("from_point", "to_point")]
    arr = [x for x in subterms(lp) if x.op == "array" and len(x.a) == 2]
    okk = any([one_coord(y) for y in x.a] == want for x in arr)
    c.ob("crossings", "line through both points", okk, "the line must go through the transition's two points; it is %s" % show(lp, 6), where_of(e))
    idx = [x for x in subterms(v.a[3]) if x.op == "index"]
    plane = [x for x in idx if contains(x.a[1], lambda y: y is v.a[1]) or x.a[1] is v.a[1]]
    c.ob("crossings", "plane of that segment", plane and all(x.a[1] is v.a[1] for x in idx if x.a[0] is plane[0].a[0]), "the plane must be the one of the crossed segment; it is %s" % show(v.a[3], 6), where_of(e))


def one_coord(t):
    xs = [x for x in subterms(t) if x.op == "field" and x.a[1] == "coordinates"]
    return xs[0] if len(xs) == 1 else None


def extra_len(cd, lst):
    """cd holds whenever the list is not empty"""
    for n in (1, 2, 3, 5, 100, 10000):
        m = {}
        for at in bsupport(cd):
            if not any(x is lst for x in subterms(at)):
                return False
            for x in subterms(at):
                if x.op == "call" and len(x.a) == 2 and strip_list(x.a[1]) is lst:
                    k = x.a[0].split("::")[-1]
                    if k in ("len", "count"):
                        m[x] = const(n)
                    elif k == "is_empty":
                        m[x] = FALSE
            if at.op == "is" and at.a[1] == "Some":
                m[at] = TRUE        # the first or last of them
        if asb(tab_value(boolt(cd), m)) != 1:
            return False
    return True


def tab_value(t, m):
    return subst(t, m)


def tasks(c, E, pairs):
    """every collected crossing is handed to a helper, which answers it with the same transition and segment"""
    ss = sends(E, "IntersectionTaskMessage")
    if not c.ob("tasks", "sent", len(ss) == 1, "intersection tasks are sent at %d places" % len(ss)):
        return
    e = ss[0]
    pl = proj(e.args[1], ("tasks",))
    adds = listadds(E, pl)
    okk = False
    det = show(pl, 4)
    if adds and adds[0] is None and len(adds[1]) == 1:
        a = adds[1][0]
        val, src = a.val, a.src
        if val.op == "adt":
            d = dict(val.a[2])
            x0 = d["transition"]
            item = x0.a[0] if x0.op == "field" else None
            okk = item is not None and all(d[k] is proj(item, (str(i),)) for i, k in enumerate(("transition", "segment_id", "line_points", "plane_points")))
            det = show(val, 4)
            if okk and item is elem(src):
                okk = origin(E, strip_list(src)) is pairs and a.cond == 1
            elif okk:
                okk = popped_all(E, item, src, a.cond, pairs, e)
                det = "taken %s for each of %s" % (show(item, 3), show(src, 4))
    c.ob("tasks", "all crossings", okk, "every collected crossing must be handed out with its transition, segment and points: %s" % det, where_of(e))
    hb = c.need(c.p.handler("IntersectionCalculationHelper", "IntersectionTaskMessage"), "helper for IntersectionTaskMessage")
    if hb:
        H = c.run(hb)
        msg = sym(hb["locals"][2][1] or "msg")
        rs = sends(H, "IntersectionResultMessage")
        okk = len(rs) == 1
        if okk:
            ad = listadds(H, proj(rs[0].args[1], ("results",)))
            okk = bool(ad) and ad[0] is None and len(ad[1]) == 1
            if okk:
                a = ad[1][0]
                d = dict(a.val.a[2]) if a.val.op == "adt" else {}
                t = elem(a.src)
                okk = strip_list(a.src) is proj(msg, ("tasks",)) and no_panic_all(a.cond, H) and d.get("transition") is proj(t, ("transition",)) and d.get("segment_id") is proj(t, ("segment_id",)) and all(flows(H, d.get("intersection", UNIT), proj(t, (k,))) for k in ("line_points", "plane_points"))
        c.ob("tasks", "answered", okk, "the helper must answer every task with its transition, segment and the intersection of its line and plane")


def flows(E, t, x, seen=None):
    """t is computed from x, directly or in a loop"""
    seen = set() if seen is None else seen
    for y in subterms(t):
        if y is x:
            return True
        if y.op == "loopvar" and y in E.loopinfo and y not in seen:
            seen.add(y)
            if any(z is not None and flows(E, z, x, seen) for z in E.loopinfo[y][:2]):
                return True
    return False


def no_panic_all(cond, E):
    return band(cond, bnot(panics(E))) == bnot(panics(E)) or cond == 1 or bnot(no_panic(cond)) == 0


def popped_all(E, item, src, cond, pairs, e):
    """pop() until the list is empty"""
    if not (item.op == "field" and item.a[1] == "Some.0" and item.a[0].op == "call" and item.a[0].a[0].split("::")[-1] in ("pop", "pop_front")):
        return False
    lv = item.a[0].a[1]
    if origin(E, lv) is not pairs or cond != is_variant(item.a[0], "Some") and cond != 1:
        return False
    if src.op == "while":
        return True
    outer = [l for l in e.loops]
    if lv.op != "loopvar" or lv not in E.loopinfo:
        return False
    before = E.loopinfo[lv][0]
    for L in (1, 2, 3, 7, 10, 23):
        rem = L
        o = outer[-1] if outer else None
        n = 1
        if o is not None:
            lo, hi = range_bounds(o) if o.op == "adt" else (None, None)
            if lo is None:
                return False
            env = len_env(E, [lo, hi], pairs, L)
            a_, b_ = value(lo, env), value(hi, env)
            if a_ is None or b_ is None:
                return False
            n = int(b_ - a_)
        for i in range(n):
            lo, hi = range_bounds(src)
            env = {}
            for t in (lo, hi):
                for x in subterms(t):
                    if x.op == "call" and x.a[0].split("::")[-1] == "len" and origin(E, x.a[1]) is pairs:
                        env[x] = const(rem if x.a[1] is before and before.op == "loopvar" and E.lsrc.get(E.loopinfo[before][2]) in outer else L)
            if o is not None:
                env[elem(o)] = const(i)
            a_, b_ = value(lo, env), value(hi, env)
            if a_ is None or b_ is None:
                return False
            rem -= min(rem, max(0, int(b_ - a_)))
        if rem:
            return False
    return True


def len_env(E, ts, pairs, L):
    return {x: const(L) for t in ts for x in subterms(t) if x.op == "call" and x.a[0].split("::")[-1] == "len" and origin(E, x.a[1]) is pairs}


def silent(c):
    """the same context without recording obligations (rules decided by another property)"""
    q = Ctx(c.pid, c.p, c.tier)
    q._runs = c._runs
    q.analysed = c.analysed
    return q


def p10(c):
    cl = Cluster(c)
    q = silent(c)
    A = assign_fn(q)
    if c.need(A, "segment_id_to_assignment") is None:
        return
    op = proto_opaque(c.p)
    for inst, fn, m in (("own points", local_steps, "RotationDoneMessage"), ("border step", border_step, "SendFirstPointMessage")):
        r = fn(q, cl, A)
        if c.ob("steps-found", inst, r, "%s: cannot identify where the steps between points are turned into transitions: %s" % (inst, [m_ for _, m_, _ in q.viol][:2])):
            validity(c, c.run(c.p.handler("Training", m), op, "proto"), inst, r)
    crossings(c, cl)
