"""P08 identity of graph nodes and edges."""
from aggregate import *
from lists import *


def fnbody(c, name, self_ty=None, trait=None):
    """a function by name (and the base name of its self type / trait)"""
    r = []
    for b in c.p.bodies.values():
        if b.get("name") != name or b["kind"] == "Closure" or "promoted" in b["key"]:
            continue
        st = base((b.get("self_ty") or "").split("<")[0].lstrip("&"))
        if self_ty is not None and st != self_ty:
            continue
        if trait is not None and base((b.get("trait") or "").split("<")[0]) != trait:
            continue
        r.append(b)
    return r


def params(b):
    return [sym(b["locals"][i][1] or "arg%d" % i) for i in range(1, b["argc"] + 1)]


def eq_parts(cond, a, b):
    """fields compared for equality if cond is a conjunction of field equalities of a and b; else None"""
    out = set()
    want = 1
    ra, rb = fieldpath(a)[0], fieldpath(b)[0]

    def pair(x, y):
        return x and y and {x[0], y[0]} == {ra, rb} and x[1:] == y[1:]
    for at in bsupport(cond):
        if at.op == "eq" and len(at.a) == 2:
            x, y = fieldpath(at.a[0]), fieldpath(at.a[1])
            if not pair(x, y):
                return None
            v = bvar(at)
        elif at.op == "call" and at.a[0].split("::")[-1] == "eq" and len(at.a) == 3:
            x, y = fieldpath(at.a[1]), fieldpath(at.a[2])
            if not pair(x, y):
                return None
            v = bvar(at)
        else:
            x = y = None
            for t in subterms(at):
                p = fieldpath(t)
                if p and p[0] == ra and (x is None or len(p) > len(x)):
                    x = p
                if p and p[0] == rb and (y is None or len(p) > len(y)):
                    y = p
            if not pair(x, y):
                return None
            v = cmp("eq", proj(a, x[1:]), proj(b, x[1:]), "usize")
        out.add(tuple(x[1:]))
        want = band(want, v)
    return out if want == cond else None


def hashed(E, state):
    """fields fed to the hasher"""
    out = []
    for e in E.events:
        if e.kind == "call" and e.name in ("hash", "write", "write_usize", "write_u64", "write_isize", "write_u32") and e.args:
            v = e.args[0] if e.name == "hash" else e.args[1]
            for x in (v.a if v.op == "tuple" else (v,)):
                out.append((fieldpath(x), e, x))
    return out


def identity(c, ty, fields):
    eq = fnbody(c, "eq", ty, "PartialEq")
    hs = fnbody(c, "hash", ty, "Hash")
    if not c.ob("eq-present", ty, len(eq) == 1, "%s has no equality" % ty) or not c.ob("hash-present", ty, len(hs) == 1, "%s cannot be hashed" % ty):
        return
    b = eq[0]
    E = c.run(b)
    a, o = params(b)[:2]
    r = asb(E.ret)
    parts = eq_parts(r, a, o)
    want = {tuple(f.split(".")) for f in fields}
    # compared through whole nodes counts as comparing the nodes' identity
    alt = {(p[0],) for p in want if len(p) == 2}
    ok = parts is not None and (parts == want or (alt and parts == alt))
    c.ob("identity", ty, ok, "two values of %s must be equal exactly if %s agree; equality is %s" % (ty, ", ".join(fields), showb(r)[:300]), c.where(b) if hasattr(c, "where") else "%s:%s" % (b["span"][0], b["span"][1]))
    b = hs[0]
    E = c.run(b)
    hp = [(p and tuple(p[1:]), e, x) for p, e, x in hashed(E, None)]
    bad = [x for p, e, x in hp if p is None or not (p in want or p in alt)]
    c.ob("hash-consistent", ty, not bad and hp, "equal values of %s must have equal hashes: the hash also depends on %s" % (ty, [show(x, 4) for x in bad]), "%s:%s" % (b["span"][0], b["span"][1]))
    c.ob("hash-unconditional", ty, all(e.cond == 1 and not e.loops for _, e, _ in hp), "the hash of %s depends on more than its fields" % ty)


def conversions(c):
    """conversions between shared, independent and serialisable forms keep nodes, edges and points"""
    spec = [("materialize", "Edge", {"from_node": ("from_node",), "to_node": ("to_node",)}),
            ("materialize", "Transition", {"from_point": ("from_point",), "to_point": ("to_point",)}),
            ("into_transition", "MaterializedTransition", {"from_point": ("from_point",), "to_point": ("to_point",)}),
            ("get_from_node", "MaterializedEdge", {(): ("from_node",)}), ("get_to_node", "MaterializedEdge", {(): ("to_node",)}),
            ("get_from_node", "Edge", {(): ("from_node",)}), ("get_to_node", "Edge", {(): ("to_node",)}),
            ("get_from_point", "MaterializedTransition", {(): ("from_point",)}), ("get_to_point", "MaterializedTransition", {(): ("to_point",)}),
            ("get_from_point", "Transition", {(): ("from_point",)}), ("get_to_point", "Transition", {(): ("to_point",)}),
            ("get_to_id", "Edge", {(): ("to_node", "from_point_id")}), ("get_to_id", "MaterializedEdge", {(): ("to_node", "from_point_id")}),
            ("get_from_id", "IndependentNode", {(): ("from_point_id",)}), ("get_segment_id", "IndependentNode", {(): ("segment",)}), ("get_cluster", "IndependentNode", {(): ("cluster",)}),
            ("to_independent", "Node", {"segment": None, "cluster": ("cluster",), "from_point_id": None})]
    n = 0
    for fn, ty, want in spec:
        bs = [b for b in fnbody(c, fn, ty)]
        if not bs:
            continue            # renamed or inlined by hand: its users are checked where they are used
        for b in bs:
            E = c.run(b)
            s = params(b)[0]
            for k, p in want.items():
                v = restrict(proj(E.ret, (k,)) if k != () else E.ret, 1)
                n += 1
                if p is None:
                    p = {"segment": ("segment_id",), "from_point_id": ("id",)}[k]
                    fp = fieldpath(v) or ()
                    c.ob("conversion", "%s::%s %s" % (ty, fn, k), fp[:2] == (fieldpath(s)[0], "intersection") and fp[-1] in ({"segment": ("segment_id", "segment"), "from_point_id": ("id", "from_point_id")}[k]), "%s::%s gives %s = %s" % (ty, fn, k, show(v, 5)), "%s:%s" % (b["span"][0], b["span"][1]))
                    continue
                c.ob("conversion", "%s::%s %s" % (ty, fn, k or ""), unref(v) in (proj(s, p), proj(s, p + ("0",))), "%s::%s must keep %s; it gives %s" % (ty, fn, ".".join(p), show(v, 5)), "%s:%s" % (b["span"][0], b["span"][1]))
    c.floor("conversions", n, 8)


def unref(t):
    while t.op == "call" and t.a[0].split("::")[-1] in ("new", "clone", "into", "from", "into_ref", "deref", "lock", "deref_clone") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "adt" and t.a[0].split("::")[-1] in ("PointRef",):
        return unref(dict(t.a[2])["0"])
    return t


def p08(c):
    identity(c, "IndependentNode", ["segment", "cluster"])
    identity(c, "Edge", ["from_node", "to_node"])
    identity(c, "MaterializedEdge", ["from_node.segment", "from_node.cluster", "to_node.segment", "to_node.cluster"])
    conversions(c)
    # counted by identity
    op = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "TranspositionDone"), "handler for TranspositionDone")
    E = c.run(b, op, "proto")
    fin = self_final(E)
    edges = proj(SELF, ("data_store", "edges"))
    ms = merges(E, None, ismap=local_map(E, proj(fin, ("scoring", "edge_weight"))))
    counted(c, ms, "edge weight", lambda s, k: s is edges and k is elem(s), 1)
    b = c.need(c.p.handler("Training", "EdgeEstimationDone"), "handler for EdgeEstimationDone")
    E = c.run(b, op, "proto")
    nd = proj(self_final(E), ("scoring", "node_degrees"))
    ms = merges(E, None, ismap=local_map(E, nd))
    for side in ("from_node", "to_node"):
        mm = [m for m in ms if m.key.op == "field" and m.key.a[1] == side]
        counted(c, mm, "degree of " + side, lambda s, k: k is proj(elem(s), (side,)) and flat_place(as_set(s) or s, ())[1][-1:] == ("edges",), None)
        for m in mm:
            cnd = drop(m.cond, m.has)
            at = [a for a in bsupport(cnd)]
            okk = len(at) == 1 and at[0].op == "call" and at[0].a[0].split("::")[-1] == "insert" and at[0].a[-1] is elem(m.loops[-1]) and cnd == bvar(at[0])
            okk = okk or cnd == 1 and as_set(m.loops[-1]) is not None
            c.ob("degree-per-distinct-edge", side, okk, "the degree must be counted once per distinct edge; it is counted under %s" % showb(cnd)[:200], m.where)
    c.ob("degree-both-ends", "node degrees", len(ms) == 2, "an edge must count for both its nodes; %d updates found" % len(ms))
