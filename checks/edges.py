"""P12 transposition of edges to the owners of their points; P13 the chain of edges along the trajectory."""
from questions import *

EDGES = proj(SELF, ("data_store", "edges"))
LEN = proj(SELF, ("dataset_stats", "Some.0", "n", "Some.0"))


def edge_ends(t):
    while t.op == "call" and t.a[0].split("::")[-1] in ("new", "clone", "into_ref", "deref") and len(t.a) == 2:
        t = t.a[1]
    return proj(t, ("from_node",)), proj(t, ("to_node",))


def sort_keys(r):
    """result of a sort callback -> [(key component as a function of p0, descending)]"""
    if r.op == "tuple":
        return [(x, False) for x in r.a]
    if r.op == "call":
        n = r.a[0].split("::")[-1]
        if n in ("then", "then_with") and len(r.a) == 3:
            a, b = sort_keys(r.a[1]), sort_keys(r.a[2])
            return a + b if a is not None and b is not None else None
        if n == "reverse" and len(r.a) == 2:
            a = sort_keys(r.a[1])
            return a and [(x, not d) for x, d in a]
        if n in ("cmp", "partial_cmp", "total_cmp") and len(r.a) == 3:
            ps = sorted({x for y in r.a[1:] for x in subterms(y) if x.op == "cparam"}, key=lambda x: x.a[-1])
            if len(ps) != 2:
                return None
            if subst(r.a[1], {ps[0]: ps[1]}) is r.a[2]:
                k, d = r.a[1], False
            elif subst(r.a[1], {ps[1]: ps[0]}) is r.a[2]:
                k, d = r.a[2], True
            else:
                return None
            return [(x, d) for x in (k.a if k.op == "tuple" else (k,))]
    if r.op == "field" and r.a[1] == "0" and "Reverse" in show(r.a[0], 2):
        return None
    return [(r, False)]


def sort_ok(E, e):
    """None if the sort orders by the time of the target, the entering edge of a time step first; else what is wrong"""
    if e.name in ("sort", "sort_unstable"):
        return "edges have no natural order"
    rs = [v for (i, _), v in E.cbres.items() if i == e.idx]
    if len(rs) != 1 or not isinstance(rs[0], T):
        return "sort key not understood"
    ks = sort_keys(rs[0])
    if not ks:
        return "sort key not understood: %s" % show(rs[0], 5)
    ps = {x for k, _ in ks for x in subterms(k) if x.op == "cparam"}
    if len(ps) != 1:
        return "sort key not understood: %s" % show(rs[0], 5)
    p = ps.pop()
    F, T_ = proj(p, ("from_node", "from_point_id")), proj(p, ("to_node", "from_point_id"))
    rows = []
    for to in range(0, 5):
        for fr in range(0, to + 1):
            v = [value(k, {F: const(fr), T_: const(to)}) for k, _ in ks]
            if any(x is None for x in v):
                return "sort key is %s" % show(rs[0], 5)
            rows.append(((to, fr == to), tuple(-x if d else x for x, (_, d) in zip(v, ks))))
    for w1, k1 in rows:
        for w2, k2 in rows:
            if w1 < w2 and not k1 < k2:
                return "an edge %s is not before an edge %s" % tuple("to time %d%s" % (w[0], " (inner)" if w[1] else " (entering)") for w in (w1, w2))
    return None


def sorted_before(c, E, inst, done, place=EDGES):
    """edges are sorted before `done` is announced and not added to afterwards"""
    ss = [e for e in E.events if e.kind == "call" and e.name.startswith("sort") and e.args and origin(E, e.args[0]) is place and e.idx < done.idx and band(done.cond, bnot(e.cond)) == 0 and not e.loops]
    if not c.ob("sorted", inst, ss, "%s: the edges are not sorted before the next phase starts" % inst, where_of(done)):
        return
    s = ss[-1]
    w = sort_ok(E, s)
    c.ob("sorted-by-time", inst, w is None, "%s: edges must be in the order of their time, the edge entering a time step first: %s" % (inst, w), where_of(s))
    late = [x for v, cd, l, x in list_adds(E, place, done.cond) if x.idx > s.idx]
    c.ob("sorted", inst + " last", not late, "%s: edges are added after they were sorted" % inst, where_of(late[0]) if late else None)


def grid_points(consts=()):
    for n in (2, 3, 4, 5):
        for ln in [n, n + 1, 2 * n + 1, 3 * n - 1, 17, 40] + [k + d for k in consts[:4] for d in (-1, 0, 1, k)]:
            if ln < n:
                continue
            f = ln // n
            for p in range(ln) if ln < 50 else sorted({x % ln for x in [0, 1, f - 1, f, f + 1, ln - 1, ln - 2] + [k + d for k in consts for d in (-1, 0, 1)]}):
                yield n, ln, p, f


def p12(c):
    cl = Cluster(c)
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "EdgeEstimationDone"), "handler for EdgeEstimationDone")
    E = c.run(b, op, "proto")
    own, n = sym("own"), sym("n")
    when = cl.has
    plain = lambda t: own_as(cl, subst(t, {NCN: n}), own, n)
    # the range of time points this node takes over
    st = restrict(proj(self_final(E), ("transposition", "range_start_point")), when)
    is_s = asb(boolt(is_variant(st, "Some")))
    if c.ob("range-start", "set", band(when, bnot(is_s)) == 0, "the first time point of this node's range is not set"):
        t = plain(proj(st, ("Some.0",)))
        w = same_function(t, None, (({LEN: const(ln), n: const(k), own: const(o)}, o * (ln // k)) for k in (2, 3, 4, 5) for ln in (k, k + 1, 2 * k + 1, 3 * k - 1, 17, 40) + tuple(consts_in(t)) for o in range(k) if ln >= k))
        c.ob("range-start", "value", w is None, "the range of node i must start at i * (length / nodes): %s" % w)
    # degrees are counted before edges move: afterwards equal edges may be on several nodes
    deg = restrict(proj(self_final(E), ("scoring", "node_degrees")), when)
    srcs = set()
    for m in merges(E, None, ismap=local_map(E, deg)) if deg.op == "loopvar" else []:
        srcs.add(strip_list(m.loops[-1]) if m.loops else None)
    c.ob("degrees-before-moving", "EdgeEstimationDone", srcs and all(x is EDGES for x in srcs), "node degrees must be counted over the edges this node created, before they move; counted over %s" % sorted(show(x, 4) if x is not None else "?" for x in srcs))
    # the sends
    ss = [e for e in sends(E, "TranspositionRotationMessage")]
    if not c.ob("edges-sent", "each peer", ss, "edges are not sent to the peers"):
        return
    maps = None
    for e in ss:
        t = cl.target(e.args[0])
        pl = proj(e.args[1], ("assignments",))
        if not c.ob("edges-sent", "target", t[0] == "each-peer", "edges are sent to %s" % t[0], where_of(e)):
            continue
        rs = [x.a[1] for y in [pl] + list(bsupport(e.cond)) for x in subterms(y) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get", "get_mut") and len(x.a) == 3 and x.a[2] is t[1]]
        if not c.ob("edges-sent", "by owner", rs, "every peer must get the edges that lead to its time points; it gets %s" % show(pl, 5), where_of(e)):
            continue
        r = rs[0]
        while r.op in ("mut", "loopvar"):
            prev = r
            if r.op == "mut":
                r = r.a[2]
            elif r in E.loopinfo:
                r = E.loopinfo[r][0]
            else:
                break
            if prev.op == "loopvar" and any(m.cond for m in merges(E, None, ismap=local_map(E, prev)) if m.loops):
                maps = prev
                break
        c.ob("edges-sent", "payload", keyed_payload(pl, e.cond, lambda x: maps is not None and through(E, x, local_map(E, maps)), t[1]), "every peer must get exactly the edges collected for it; it gets %s" % show(pl, 5), where_of(e))
    if not c.ob("edges-collected", "map", maps is not None, "the edges of the peers are not collected by owner"):
        return
    ismap = local_map(E, maps)
    ms = [m for m in merges(E, None, ismap=ismap) if band(m.cond, when) != 0 and m.loops]
    coll = [m for m in ms if strip_list(elem_src(m.loops[-1], E)) is EDGES]
    pre = [m for m in ms if m not in coll]
    if not c.ob("edges-collected", "once", len(coll) == 1, "edges are collected at %d places" % len(coll)):
        return
    m = coll[0]
    V = drop(m.cond, m.has)
    x = elem(m.loops[-1])
    rawkey = m.key
    m.key = subst(m.key, {x: base_elem(x, E)})
    np = bnot(panics(E))
    pv = restrict(m.present, m.cond)
    okp = pv.op == "append" and pv.a[0] is OLD and edge_of(pv.a[1], x, E)
    c.ob("edges-collected", "appended", okp, "an edge must be added unchanged to the edges collected for its owner; it becomes %s" % show(pv, 6), m.where)
    prefilled = any(is_range(p_.loops[-1], cl) and p_.key is elem(p_.loops[-1]) and is_nothing(restrict(p_.absent, p_.cond)) and len(p_.loops) == 1 for p_ in pre)
    i0 = maps
    while i0.op == "loopvar" and i0 in E.loopinfo:
        i0 = E.loopinfo[i0][0]
    i0 = strip_list(i0)
    if i0.op == "seq" and i0.a[1].op == "tuple" and asb(i0.a[2]) == 1:
        prefilled = prefilled or is_range(i0.a[0], cl) and i0.a[1].a[0] is elem(i0.a[0]) and is_empty_list(i0.a[1].a[1])
    a_ = restrict(m.absent, V) if band(V, bnot(m.has)) and band(m.cond, bnot(m.has)) != 0 else None
    okk = prefilled if a_ is None else (a_.op == "append" and a_.a[0] is sym("EMPTY") and edge_of(a_.a[1], x, E))
    c.ob("edges-collected", "first of an owner", okk, "the first edge of an owner must be collected too; it becomes %s" % (show(a_, 5) if a_ is not None else "nothing"), m.where)
    ownc = None
    V = band(V, 1)
    key = plain(m.key)
    pid = proj(base_elem(x, E), ("to_node", "from_point_id"))
    w = same_function(key, None, (({LEN: const(ln), n: const(k), pid: const(p_)}, min(p_ // f, k - 1)) for k, ln, p_, f in grid_points(consts_in(key))))
    c.ob("edges-owner", "function", w is None, "an edge belongs to node min(time of its target / (length / nodes), nodes - 1): %s" % w, m.where)
    # own edges
    adds = [a for a in list_adds(E, EDGES, when)]
    mine = cmp("eq", rawkey, cl.own, "usize")
    if c.ob("own-edges-kept", "once", len(adds) == 1, "own edges are added at %d places" % len(adds)):
        v, cd, loops, e = adds[0]
        if len(loops) == 1 and loops[0] is not m.loops[-1]:
            src = strip_list(loops[0])
            rm = [y for y in subterms(src) if y.op == "call" and y.a[0].split("::")[-1] in ("remove", "get") and len(y.a) == 3 and through(E, y.a[1], ismap)]
            some_ = restrict(src, is_variant(rm[0], "Some")) if rm else None
            none_ = restrict(src, bnot(is_variant(rm[0], "Some"))) if rm else None
            okk = rm and all(cl.norm(y.a[2]) is cl.norm(cl.own) for y in rm) and some_ is proj(rm[0], ("Some.0",)) and (src is some_ or is_empty_list(none_)) and edge_ends(restrict(v, is_variant(rm[0], "Some"))) == edge_ends(elem(some_))
            c.ob("own-edges-kept", "all", okk, "this node must keep exactly the edges collected for itself; it keeps %s of each of %s" % (show(v, 4), show(src, 5)), where_of(e))
            got = band(cd, np, bnot(0))
            hs = [is_variant(y, "Some") for y in rm]
            want = band(when, np)
            got = bexists(band(cd, np), lambda a: any(bsupport(h) == {a} or a in bsupport(h) for h in hs))
            c.ob("own-edges-kept", "always", cl.eq(got, bexists(want, lambda a: any(a in bsupport(h) for h in hs))), "own edges are only kept under %s" % showb(cd)[:200], where_of(e))
        else:
            okk = len(loops) == 1 and edge_of(v, x, E)
            c.ob("own-edges-kept", "all", okk, "this node must keep its own edges; it keeps %s" % show(v, 4), where_of(e))
            c.ob("own-edges-kept", "always", cl.eq(band(cd, np), band(when, np, mine)), "own edges are kept under %s" % showb(cd)[:200], where_of(e))
        # nothing else stays
        lv = restrict(proj(self_final(E), ("data_store", "edges")), when)
        c.ob("moved-edges-removed", "EdgeEstimationDone", emptied(E, lv), "edges of other nodes must not stay here: the edge list is not emptied before the own edges are added (%s)" % show(lv, 4))
    if band(V, mine) == 0 or True:
        excl = [bnot(mine), 1]
        vv = band(V, np)
        c.ob("edges-collected", "all", any(cl.eq(vv, band(when, np, x_)) for x_ in excl), "edges are only collected under %s" % showb(V)[:200], m.where)
    # received
    b = c.need(c.p.handler("Training", "TranspositionRotationMessage"), "handler for TranspositionRotationMessage")
    E = c.run(b, op, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    adds = list_adds(E, EDGES)
    if c.ob("received-edges", "stored", len(adds) == 1, "received edges are added at %d places" % len(adds)):
        v, cd, loops, e = adds[0]
        okk = len(loops) == 1 and strip_list(loops[0]) is proj(msg, ("assignments",)) and edge_ends(v) == edge_ends(elem(loops[0]))
        c.ob("received-edges", "each, unchanged", okk, "every received edge must be stored unchanged; stored is %s for each of %s" % (show(v, 5), [show(x, 4) for x in loops]), where_of(e))
        g = gate_received(E, proto_fields(c.p)["TranspositionRotationMessage"][0])
        c.ob("received-edges", "unconditionally", g is not None and no_panic(cd) == g, "received edges are stored only under %s" % showb(cd)[:200], where_of(e))
    k = 0
    for m_ in ("TranspositionRotationMessage", "EdgeEstimationDone"):
        E = c.run(c.p.handler("Training", m_), op, "proto")
        for e in sends(E, "TranspositionDone"):
            if m_ == "EdgeEstimationDone" and band(e.cond, when) == 0:
                continue
            k += 1
            sorted_before(c, E, "after the exchange (%s)" % m_, e)
    c.floor("announcements of the end of the exchange", k, 1)


def is_nothing(t):
    return t is sym("EMPTY") or is_empty_list(t)


def edge_of(t, x, E):
    return edge_ends(t) in (edge_ends(x), edge_ends(base_elem(x, E)))


def full_drain(t):
    return t.op == "call" and t.a[0].split("::")[-1] == "drain" and len(t.a) == 3 and t.a[2].op == "adt" and t.a[2].a[0].split("::")[-1] == "RangeFull"


def elem_src(t, E_=None):
    """the list behind a mapped list whose elements are unchanged edges"""
    t0 = t
    while True:
        t = strip_list(t)
        if t.op == "collect":
            t = t.a[0]
        elif t.op == "seq" and asb(t.a[2]) == 1 and edge_ends(t.a[1]) == edge_ends(elem(t.a[0])):
            t = t.a[0]
        elif full_drain(t):
            t = t.a[1]
        elif t.op == "loopvar" and E_ is not None:
            r = listadds(E_, t)
            if not r or r[0] is not None or len(r[1]) != 1 or r[1][0].src is None or bnot(r[1][0].cond) == 1 or edge_ends(r[1][0].val) != edge_ends(elem(r[1][0].src)):
                return t
            if r[1][0].cond != 1:
                return t
            t = r[1][0].src
        else:
            return t


def base_elem(x, E_=None):
    """an element of a list of copied edges is the edge"""
    if x.op == "elem":
        s = elem_src(x.a[0], E_)
        return elem(s)
    return x


def is_range(t, cl):
    t = strip_list(t)
    if t.op == "adt" and t.a[0].split("::")[-1] == "Range":
        d = dict(t.a[2])
        return d["start"] is const(0) and (d["end"] is NCN or own_as(cl, d["end"]) is sym("n"))
    return False


def emptied(E, t, d=0):
    """the list was empty at some point before the last additions"""
    while d < 60:
        d += 1
        if is_empty_list(t):
            return True
        if t.op == "mut":
            nm = t.a[0].split("::")[-1]
            if nm in ("clear", "take") or nm == "drain" and full_drain(mk("call", "drain", *t.a[2:])):
                return True
            if nm in ("push", "extend", "append", "sort_by_key", "sort_by", "reserve") or nm.startswith("sort"):
                t = t.a[2]
            else:
                return False
        elif t.op == "loopvar" and t in E.loopinfo:
            t = E.loopinfo[t][0]
        elif t.op == "ite":
            return emptied(E, t.a[1], d) and emptied(E, t.a[2], d)
        else:
            return False
    return False


# ---------------------------------------------------------------- P13
NODES = proj(SELF, ("data_store", "index", "nodes"))
FOREIGN = proj(SELF, ("node_estimation", "next_foreign_node"))


def orderer_roles(c):
    """(constructor, adder, finisher) of the type that orders the edges of one transition"""
    new, addn, fin = [], [], []
    for b in c.p.bodies.values():
        if base(b.get("self_ty") or "") != "EdgesOrderer" or b["kind"] == "Closure" or "promoted" in b["key"] or b.get("trait"):
            continue
        ty = [b["locals"][i][0] for i in range(0, b["argc"] + 1)]
        me = [t for t in ty[1:] if base(t) == "EdgesOrderer"]
        if base(ty[0]) == "EdgesOrderer" and not me:
            new.append(b)
        elif me and "Vec<" in ty[0] and "Edge" in ty[0]:
            fin.append(b)
        elif me and len(ty) == 4 and "Option<" in ty[2]:
            addn.append(b)
    return [x[0] if len(x) == 1 else None for x in (new, addn, fin)]


def fold_lists(t, empty=(), full=()):
    """decide emptiness questions about lists known to be (non)empty"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and len(x.a) >= 2 and isinstance(x.a[1], T):
            n = x.a[0].split("::")[-1]
            e = x.a[1] in empty or is_empty_list(x.a[1])
            u = x.a[1] in full or x.a[1].op == "mut" and x.a[1].a[0].split("::")[-1] in ADD1
            if e or u:
                if n == "is_empty":
                    m[x] = boolt(1 if e else 0)
                elif n == "len" and e:
                    m[x] = const(0)
                elif e and n in ("get", "first", "last", "get_mut", "first_mut", "last_mut", "pop"):
                    m[x] = NONE
        if x.op == "is" and x.a[1] == "Some" and x.a[0].op == "call" and len(x.a[0].a) >= 2 and x.a[0].a[0].split("::")[-1] in ("get", "first", "last"):
            if x.a[0].a[1] in full and (len(x.a[0].a) == 2 or x.a[0].a[2] is const(0)):
                m[x] = boolt(1)
        if x.op == "len" and isinstance(x.a[0], T) and (x.a[0] in empty or is_empty_list(x.a[0])):
            m[x] = const(0)
    return subst(t, m) if m else t


def flat(t):
    """a list value as a sequence of ('all', list) and ('one', value)"""
    if is_empty_list(t) or t is sym("EMPTY"):
        return []
    if t.op == "mut":
        n = t.a[0].split("::")[-1]
        r = flat(t.a[2])
        if r is None:
            return None
        if n in ADD1 and len(t.a) == 4:
            return r + [("one", t.a[3])]
        if n in ADDN and len(t.a) == 4:
            y = flat(t.a[3])
            return y if y is None else r + y
        if n == "insert" and len(t.a) == 5 and t.a[3] is const(0):
            return [("one", t.a[4])] + r
        if n in ("push_front",) and len(t.a) == 4:
            return [("one", t.a[3])] + r
        if n in ("reserve", "shrink_to_fit"):
            return r
        return None
    if t.op == "append" and len(t.a) == 2:
        r = flat(t.a[0])
        return None if r is None else r + [("one", t.a[1])]
    if t.op in ("chain", "concat") or t.op == "call" and t.a[0].split("::")[-1] in ("chain", "concat") and len(t.a) == 3:
        a, b = (t.a[-2], t.a[-1])
        a, b = flat(a), flat(b)
        return None if a is None or b is None else a + b
    if t.op == "array":
        return [("one", x) for x in t.a]
    if t.op == "collect":
        return flat(t.a[0])
    if t.op == "call" and t.a[0].split("::")[-1] in ("clone", "into_iter", "iter", "cloned", "to_vec", "into_vec", "drain", "once") and len(t.a) >= 2:
        if t.a[0].split("::")[-1] == "once":
            return [("one", t.a[1])]
        return flat(t.a[1])
    if t.op == "seq" and asb(t.a[2]) == 1 and t.a[1] is elem(t.a[0]):
        return flat(t.a[0])
    return [("all", t)]


def show_flat(f):
    return "?" if f is None else "[" + ", ".join(("" if k == "one" else "..") + show(v, 4) for k, v in f) + "]"


def edge_term(a, b, like):
    """is `like` the edge a -> b"""
    f, t = edge_ends(like)
    return node(f) is node(a) and node(t) is node(b)


def node(t):
    while t.op == "call" and t.a[0].split("::")[-1] in ("clone", "into_ref", "new", "deref") and len(t.a) == 2:
        t = t.a[1]
    return t


def p13(c):
    po = proto_opaque(c.p)
    roles = orderer_roles(c)
    for r, nm in zip(roles, ("constructor", "method that adds a node", "method that returns the edges")):
        if not c.need(r, "%s of EdgesOrderer" % nm):
            return
    keys = {r["key"] for r in roles}
    fld = connect(c, po, roles, keys)
    if fld:
        orderer(c, roles, fld)


def connect(c, po, roles, keys):
    b = c.need(c.p.handler("Training", "NodeEstimationDone"), "handler for NodeEstimationDone")
    E = c.run(b, lambda x: po(x) or x["key"] in keys, "eo")
    ev = [[e for e in E.events if e.kind == "call" and e.fn == x["path"]] for x in roles]
    for l, nm in zip(ev, ("created", "filled", "read")):
        if not c.ob("chain", "orderer " + nm, len(l) == 1, "the edge orderer is %s at %d places, expected 1" % (nm, len(l))):
            return None
    new, addn, fin = [l[0] for l in ev]
    outer = new.loops[0] if len(new.loops) == 1 else None
    if not c.ob("all-time-points", "order", outer is not None and is_full_range(outer), "edges must be built for every time point 0..length in order; built over %s" % ([show(x, 4) for x in new.loops]), where_of(new)):
        return None
    pt = elem(outer)
    PV = new.args[0]
    src = addn.loops[-1] if len(addn.loops) == 2 and addn.loops[0] is outer else None
    if not c.ob("all-nodes", "order", src is not None and node_list(src, pt), "all nodes of a time point must be connected in the order of their segments; used are %s" % [show(x, 5) for x in addn.loops], where_of(addn)):
        return None
    present = band(*[is_variant(x, "Some") for x in lookups_of(src)]) if lookups_of(src) else 1
    for e, nm in ((new, "created"), (addn, "filled"), (fin, "read")):
        c.ob("all-nodes", nm, no_panic(e.cond) == present, "the nodes of a time point are skipped: the edge orderer is only %s under %s" % (nm, showb(e.cond)[:200]), where_of(e))
    # arguments of the adder
    o, pr, cur = addn.args
    li = E.loopinfo.get(pr)
    li_o = E.loopinfo.get(o)
    newt = mk("call", new.fn, *new.args)
    c.ob("chain", "one orderer per time point", li_o is not None and li_o[0] is newt, "each time point needs its own edge orderer, started with the last node before it", where_of(addn))
    c.ob("chain", "current node", node(cur) is elem(src), "the node added is %s" % show(cur, 4), where_of(addn))
    c.ob("chain", "previous node", li is not None and li[0] is PV and li[1] is not None and same_opt(li[1], some(elem(src))), "the previous node passed along must be the node added before (first: the last node of the time point before); it is %s" % (show(li[1], 4) if li and li[1] is not None else show(pr, 4)), where_of(addn))
    c.ob("chain", "read after filling", fin.args[0] is o and fin.loops == new.loops, "the edges are read from %s" % show(fin.args[0], 4), where_of(fin))
    if li is None or PV not in E.loopinfo:
        c.ob("chain", "carried over", False, "the last node of a time point is not carried over to the next")
        return None
    i0, step, _ = E.loopinfo[PV]
    c.ob("chain", "start", is_none(i0), "the first edge must not have a predecessor; it is %s" % show(i0, 4))
    # the node the time point ends in
    zs = [x for x in subterms(step) if x.op == "field" and x.a[0] is o]
    zs = {x.a[1] for x in zs if True}
    if not c.ob("chain", "end of a wrapped transition", len(zs) == 1, "the last node of a transition that wraps around must come from the edge orderer (fields used: %s)" % sorted(zs)):
        return None
    zf = zs.pop()
    Z = proj(o, (zf,))
    P2 = ite(is_variant(Z, "Some"), Z, pr)
    # foreign successor
    adds = list_adds(E, EDGES)
    ord_adds = [a for a in adds if contains(mk("tuple", a[0], *a[2]), lambda x: x.op == "call" and x.a[0] == fin.fn)]
    for_adds = [a for a in adds if a not in ord_adds]
    fv = mk("call", fin.fn, *fin.args)
    if c.ob("edges-added", "of the transition", len(ord_adds) == 1, "the edges of a time point are added at %d places" % len(ord_adds)):
        v, cd, loops, e = ord_adds[0]
        okk = len(loops) == 2 and loops[0] is outer and strip_list(loops[1]) is fv and edge_ends(v) == edge_ends(elem(loops[1])) and no_panic(cd) == present
        c.ob("edges-added", "all", okk, "all edges of the transition must be added; added is %s under %s" % (show(v, 5), showb(cd)[:200]), where_of(e))
    lk = {x for y in [step] + [a[0] for a in for_adds] for x in subterms(y) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and len(x.a) == 3 and origin(E, x.a[1]) is FOREIGN}
    if not c.ob("foreign-successor", "looked up", len(lk) == 1, "the node of another cluster node that follows must be looked up once per time point; found %d lookups" % len(lk)):
        return None
    lk = lk.pop()
    p2s = is_variant(P2, "Some")
    seg_ = proj(P2, ("Some.0", "segment"))
    k = restrict(lk.a[2], p2s)
    wk = mk("tuple", pt, restrict(seg_, p2s))
    c.ob("foreign-successor", "key", k.op == "tuple" and k.a[0] is pt and (restrict(k.a[1], p2s) is wk.a[1] or same_under(k.a[1], seg_, p2s)), "the following node must be looked up by the time point and the segment of its last node; looked up by %s" % show(k, 6))
    found = band(present, p2s, is_variant(lk, "Some"))
    if c.ob("foreign-successor", "edge", len(for_adds) == 1, "an edge to a node of another cluster node is added at %d places" % len(for_adds)):
        v, cd, loops, e = for_adds[0]
        f, t = edge_ends(v)
        okk = loops == (outer,) and same_under(f, proj(P2, ("Some.0",)), found) and same_under(t, proj(lk, ("Some.0", "1")), found)
        c.ob("foreign-successor", "edge ends", okk, "the edge must lead from the last node of the time point to the answered node; it is %s" % show(v, 6), where_of(e))
        c.ob("foreign-successor", "whenever known", no_panic(cd) == found, "the edge to the following foreign node is only added under %s" % showb(cd)[:300], where_of(e))
    for cond, want, what in ((bnot(present), PV, "a time point without nodes must not change the last node"), (found, NONE, "after an edge to a foreign node the chain here must restart"), (band(present, bnot(found)), P2, "the last node of the time point must be carried over")):
        c.ob("chain", what, same_under(step, want, cond), "%s; it becomes %s" % (what, show(restrict(step, cond), 6)))
    ff = proj(self_final(E), ("node_estimation", "next_foreign_node"))
    c.ob("foreign-successor", "forgotten", is_empty_list(ff) or emptied(E, ff), "answers of this round must be forgotten afterwards; left is %s" % show(ff, 4))
    done = sends(E, "EdgeEstimationDone")
    if c.ob("sorted", "announced", len(done) == 1, "the end of edge estimation is announced %d times" % len(done)):
        sorted_before(c, E, "edge estimation", done[0])
    return zf


def same_opt(a, b):
    return a is b or asb(boolt(is_variant(a, "Some"))) == asb(boolt(is_variant(b, "Some"))) and node(proj(a, ("Some.0",))) is node(proj(b, ("Some.0",)))


def same_under(a, b, cond):
    """a and b agree wherever cond holds"""
    if cond == 0:
        return True
    return restrict(node(a), cond) is restrict(node(b), cond) or _same(a, b, cond)


def _same(a, b, cond, d=0):
    a, b = node(restrict(a, cond)), node(restrict(b, cond))
    if a is b:
        return True
    if d > 8:
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == "ite":
            return all(band(cond, g) == 0 or _same(t, y, band(cond, g), d + 1) for g, t in ((x.a[0], x.a[1]), (bnot(x.a[0]), x.a[2])))
        if x.op == "field" and contains(x, lambda z: z.op == "ite"):
            i = [z for z in subterms(x) if z.op == "ite"][0]
            return all(band(cond, g) == 0 or _same(subst(x, {i: t}), y, band(cond, g), d + 1) for g, t in ((i.a[0], i.a[1]), (bnot(i.a[0]), i.a[2])))
    sa, sb = is_variant(a, "Some"), is_variant(b, "Some")
    if band(cond, sa) == 0 and band(cond, sb) == 0:
        return True
    if a.op == "adt" and a.a[1] == "Some" or b.op == "adt" and b.a[1] == "Some":
        if band(cond, bnot(sa)) == 0 and band(cond, bnot(sb)) == 0:
            return _same(proj(a, ("Some.0",)), proj(b, ("Some.0",)), cond, d + 1)
    return False


def is_full_range(t):
    t = strip_list(t)
    if t.op == "adt" and t.a[0].split("::")[-1] == "Range":
        d = dict(t.a[2])
        return d["start"] is const(0) and d["end"] is LEN
    return False


def lookups_of(src):
    return [x for x in subterms(src) if x.op == "call" and x.a[0].split("::")[-1] == "get" and len(x.a) == 3 and x.a[1] is NODES]


def node_list(src, pt):
    l = lookups_of(src)
    s = strip_list(src)
    return len(l) == 1 and l[0].a[2] is pt and (s is proj(l[0], ("Some.0",)) or is_call(s, "unwrap_or_default"))


def orderer(c, roles, zf):
    newb, addb, finb = roles
    Ec = c.run(newb)
    P_, prevp, cur = sym("P"), sym("prev"), None
    r = Ec.ret
    if not c.ob("orderer", "constructor", r.op == "adt", "the constructor of the edge orderer is not understood"):
        return
    d = dict(r.a[2])
    arg = params(newb)[0]
    pf = [k for k, v in d.items() if v is arg]
    if not c.ob("orderer", "predecessor", len(pf) == 1, "the edge orderer must start from the given last node; it keeps it in %s" % pf):
        return
    pf = pf[0]
    c.ob("orderer", "starts empty", all(k == pf or is_none(v) or is_empty_list(v) for k, v in d.items()), "a new edge orderer must be empty; it is %s" % show(r, 4))
    opts = [k for k, v in d.items() if v is NONE and k not in (zf, pf)]
    lists = [k for k, v in d.items() if is_empty_list(v)]
    if not c.ob("orderer", "state", len(opts) == 2 and len(lists) == 2 and zf in d, "the edge orderer must know its first node, the node behind the wrap, the last node and two lists of edges; it has %s" % sorted(d)):
        return
    E = c.run(addb)
    fin = self_final(E) if E.final else SELF
    ps = params(addb)
    prev, cur = ps[1], ps[2]
    F = {k: proj(fin, (k,)) for k in d}
    S_ = {k: proj(SELF, (k,)) for k in d}
    p = sym("p")

    def state(t, m, eqv, empty=(), full=(), extra=None):
        m = dict(m)
        t = subst(t, m)
        for _ in range(3):
            e = {}
            for x in subterms(t):
                if x.op == "eq" and len(x.a) == 2 and eqv is not None:
                    e[x] = boolt(eqv)
            if e:
                t = subst(t, e)
            t = fold_lists(t, empty, full)
        return t
    # fresh: the first node
    base_m = {S_[k]: d[k] for k in d if k != pf}
    okf = None
    for pv in (NONE, some(p)):
        m = dict(base_m)
        m.update({S_[pf]: pv, prev: pv})
        fs = {k: state(F[k], m, 1) for k in d}
        ch = [k for k in d if not same_val(fs[k], m[S_[k]])]
        got = [k for k in ch if k in opts and same_opt(fs[k], some(cur))]
        okf = got[0] if len(got) == 1 and len(ch) == 1 and okf in (None, got[0]) else False
        if not c.ob("orderer-first-node", "with predecessor" if pv is not NONE else "without predecessor", okf, "the first node of a transition must only be remembered; changed: %s" % ", ".join("%s=%s" % (k, show(fs[k], 4)) for k in ch)):
            return
    ff = okf
    mf = [k for k in opts if k != ff][0]
    f, mm, z = sym("f"), sym("m"), sym("z")
    sc, sp = proj(cur, ("segment",)), proj(p, ("segment",))
    stepc = cmp("eq", sc, add(sp, const(1)), "usize")
    # no gap so far
    small = None
    for pv in (NONE, some(sym("P"))):
        for eqv in (0, 1) if pv is not NONE else (0,):
            m = {S_[ff]: some(f), S_[mf]: NONE, S_[zf]: NONE, prev: some(p), S_[pf]: pv}
            tag = ("with predecessor" if pv is not NONE else "without predecessor") + (", same node again" if eqv else "")
            fs = {k: deep(state(F[k], m, eqv), stepc) for k in d}
            ch = [k for k in d if fs[k] is not m.get(S_[k], S_[k])]
            good = len(ch) == 1 and ch[0] in lists and flat(fs[ch[0]]) and len(flat(fs[ch[0]])) == 2 and flat(fs[ch[0]])[0] == ("all", S_[ch[0]]) and edge_term(p, cur, flat(fs[ch[0]])[1][1])
            if not c.ob("orderer-step", tag, good and small in (None, ch[0]), "the next node of a transition must give one edge from the node before; changed: %s" % ", ".join("%s=%s" % (k, show(fs[k], 5)) for k in ch)):
                return
            small = ch[0]
            large = [k for k in lists if k != small][0]
            # gap: this node is the first one of the transition
            for em in (True, False):
                kw = dict(empty=(S_[small],)) if em else dict(full=(S_[small],))
                m2 = dict(m)
                m2[S_[large]] = d[large]
                fs = {k: deep(state(F[k], m2, eqv, **kw), bnot(stepc)) for k in d}
                t2 = tag + (", second node" if em else "")
                c.ob("orderer-wrap", t2 + ": last node", same_opt(fs[zf], some(p)), "where the segments wrap around, the node before is the transition's last; it is %s" % show(fs[zf], 4))
                gm = proj(fs[mf], ("Some.0",))
                c.ob("orderer-wrap", t2 + ": node behind the wrap", asb(boolt(is_variant(fs[mf], "Some"))) == 1 and (node(gm) is p if em else end_of(gm, S_[small], "from_node", "first")), "the node behind the wrap must be the first one added; it is %s" % show(fs[mf], 5))
                fl = flat(fs[large])
                if pv is NONE:
                    c.ob("orderer-wrap", t2 + ": entering edge", fl == [], "a transition without predecessor has no entering edge; got %s" % show_flat(fl))
                    c.ob("orderer-wrap", t2 + ": first node", same_opt(fs[ff], some(cur)), "the transition's first node must be the one after the gap; it is %s" % show(fs[ff], 4))
                else:
                    c.ob("orderer-wrap", t2 + ": entering edge", fl is not None and len(fl) == 1 and fl[0][0] == "one" and edge_term(sym("P"), cur, fl[0][1]), "the entering edge must lead from the node before the transition to the node after the gap; got %s" % show_flat(fl))
                c.ob("orderer-wrap", t2 + ": edges kept", fs[small] is S_[small] and same_val(fs[pf], pv), "edges found before the gap must be kept; they become %s" % show(fs[small], 4))
    # after the gap
    for pv in (NONE, some(sym("P"))):
        for eqv in (0, 1) if pv is not NONE else (0,):
            for em in (True, False):
                kw = dict(empty=(S_[small],)) if em else dict(full=(S_[small],))
                m = {S_[ff]: some(f), S_[mf]: some(mm), S_[zf]: some(z), prev: some(p), S_[pf]: pv}
                fs = {k: deep(state(F[k], m, eqv, **kw), stepc) for k in d}
                ch = [k for k in d if fs[k] is not m.get(S_[k], S_[k])]
                fl = flat(fs[large])
                good = ch == [large] and fl and len(fl) == 2 and fl[0] == ("all", S_[large]) and edge_term(p, cur, fl[1][1])
                c.ob("orderer-step", "after the wrap" + (", with predecessor" if pv is not NONE else "") + (", same" if eqv else "") + (", no earlier edges" if em else ""), good, "after the gap each node must give one edge from the node before; changed: %s" % ", ".join("%s=%s" % (k, show(fs[k], 5)) for k in ch))
    # result
    Ef = c.run(finb)
    for pv in (NONE, some(sym("P"))):
        m = {S_[ff]: some(f), S_[mf]: NONE, S_[zf]: NONE, S_[pf]: pv, S_[large]: d[large]}
        for em in (True, False):
            kw = dict(empty=(S_[small],)) if em else dict(full=(S_[small],))
            mm2 = dict(m)
            if em:
                mm2[S_[small]] = d[small]
            fl = flat(state(Ef.ret, mm2, None, **kw))
            rest = [] if em else [("all", S_[small])]
            if pv is NONE:
                good = fl == rest
            else:
                good = fl is not None and len(fl) == len(rest) + 1 and fl[1:] == rest and fl[0][0] == "one" and edge_term(sym("P"), f, fl[0][1])
            c.ob("orderer-result", "without wrap" + (", with predecessor" if pv is not NONE else "") + (", one node" if em else ""), good, "the edges of a transition must be the entering edge and the steps; they are %s" % show_flat(fl))
        m = {S_[ff]: some(f), S_[mf]: some(mm), S_[zf]: some(z), S_[pf]: pv}
        for em in (True, False):
            for el in (True, False):
                if el and pv is not NONE:
                    continue
                m2 = dict(m)
                if em:
                    m2[S_[small]] = d[small]
                if el:
                    m2[S_[large]] = d[large]
                kw = dict(full=(S_[large],) if not el else ())
                if not em:
                    kw["full"] = kw["full"] + (S_[small],)
                fl = flat(state(Ef.ret, m2, None, **kw))
                want = ([] if el else [("all", S_[large])]) + [None] + ([] if em else [("all", S_[small])])
                good = fl is not None and len(fl) == len(want) and all(w is None or g == w for g, w in zip(fl, want))
                if good:
                    j = want.index(None)
                    good = fl[j][0] == "one"
                    if good:
                        a, b_ = edge_ends(fl[j][1])
                        good = node(b_) is mm and (node(a) is f if el else end_of(a, S_[large], "to_node", "last"))
                c.ob("orderer-result", "with wrap" + (", with predecessor" if pv is not NONE else "") + (", nothing before the gap" if em else "") + (", one node behind it" if el else ""), good, "the edges of a wrapped transition must be those after the gap, the edge across the wrap and those before the gap; they are %s" % show_flat(fl))


def end_of(t, l, field, which):
    """t is the field of the first / last element of list l"""
    t = node(t)
    if t.op != "field" or t.a[1] != field:
        return False
    t = node(t.a[0])
    if t.op == "field" and t.a[1] == "Some.0" and t.a[0].op == "call":
        x = t.a[0]
        n = x.a[0].split("::")[-1]
        if x.a[1] is not l:
            return False
        if which == "first":
            return n == "first" or n == "get" and x.a[2] is const(0)
        return n == "last"
    if t.op == "field" and isinstance(t.a[1], tuple) and t.a[1][0] == "ix" and t.a[0] is l:
        return which == "first" and t.a[1][1] is const(0) or which == "last" and show(t.a[1][1], 5).startswith("(-1 + len(")
    return False


def deep(t, lit):
    """t where the literal holds, also below the top level"""
    at = list(bsupport(lit))[0]
    return subst(t, {at: boolt(1 if lit == bvar(at) else 0)})


def same_val(a, b):
    return a is b or is_none(a) and is_none(b) or is_empty_list(a) and is_empty_list(b)
