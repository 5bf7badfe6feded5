"""Cluster vocabulary: own index, ring neighbours, peers, and classification of send targets."""
from q import *

LEN = "std::collections::HashMap::len"


class Cluster:
    """terms derived from the code's own ClusterNodes accessors, checked against their meaning"""

    def __init__(self, c, self_=SELF, path=("cluster_nodes",)):
        self.c = c
        p = c.p
        self.cn = proj(self_, path)
        self.nodes = proj(self.cn, ("nodes",))
        self.peers = mk("call", LEN, self.nodes)
        self.n = add(self.peers, const(1))
        self.n_param = proj(self_, ("parameters", "n_cluster_nodes"))
        self.own = self._acc("get_own_idx")
        self.next = self._acc("get_next_idx")
        self.prev = self._acc("get_previous_idx")
        spec_own = self._own_spec()
        c.ob("own-index", "get_own_idx", self.own is spec_own, "the own index must be the one id in 0..n missing from the peers; it is %s" % show(self.own, 6))
        m = lambda d: self._modf(add(self.own, const(d)))
        has = cmp("lt", const(0), self.peers, "usize")
        for nm, v, d in (("next", self.next, 1), ("previous", self.prev, -1)):
            okk = asb(mk_is(v, "Some")) == has and payload_some(v, has) is m(d)
            c.ob("ring-index", nm, okk, "the %s node on the ring must be (own %+d) mod n; it is %s" % (nm, d, show(v, 7)))
        self.next_key = m(1)
        self.prev_key = m(-1)
        g = lambda k: mk("call", "std::collections::HashMap::get", self.nodes, k)
        # facts of a connected cluster: ring neighbours are peers iff there is one; configured size == actual size
        self.facts = 1
        for k in (self.next_key, self.prev_key):
            s = is_variant(g(k), "Some")
            self.facts = band(self.facts, bor(band(s, has), band(bnot(s), bnot(has))))
        self.has = has

    def _acc(self, name):
        b = [b for b in self.c.p.bodies.values() if b.get("name") == name and not b.get("trait") and (b.get("self_ty") or "").endswith("ClusterNodes")]
        if not self.c.need(b, "ClusterNodes::" + name):
            return const(0)
        E = self.c.run(b[0], args=[self.cn], okey="cl" + repr(self.cn.id if hasattr(self.cn, "id") else id(self.cn)))
        return E.ret

    def _own_spec(self):
        keys = mk("call", "std::collections::HashMap::keys", self.nodes)
        rg = None
        # sum(0..n) - sum(keys); the exact iterator spelling is the engine's
        return find_own(self.own, self.n, self.nodes)

    def _modf(self, t):
        return mod(t, self.n, "modf")

    def norm(self, t):
        return subst(t, {self.n_param: self.n})

    def normb(self, b):
        return asb(subst(boolt(b), {self.n_param: self.n}))

    def eq(self, a, b):
        """equality of conditions in a connected cluster"""
        return band(self.normb(a), self.facts) == band(self.normb(b), self.facts)

    def target(self, t):
        """('self'|'each-peer'|'each-any'|'node'|'other', key, actor id)"""
        aid = None
        while True:
            if t.op == "mut" and t.a[0].split("::")[-1] == "change_id":
                aid = t.a[3]
                t = t.a[2]
            elif t.op == "call" and t.a[0].split("::")[-1] in ("clone", "recipient", "into", "from") and len(t.a) == 2:
                t = t.a[1]
            else:
                break
        if is_call(t, "address") or t is proj(SELF, ("own_addr", "Some.0")):
            return ("self", None, aid)
        if is_call(t, "recipient"):
            return self.target(t.a[1])
        if t.op == "field":
            ks = []
            x = t
            while x.op == "field":
                ks.append(x.a[1])
                x = x.a[0]
            if is_call(x, "get") and x.a[1] is self.nodes and ks == ["Some.0"]:
                return ("node", x.a[2], aid)
            if x.op == "elem" and x.a[0] is self.nodes and ks == ["1"]:
                return ("each-peer", proj(x, ("0",)), aid)
            if x.op == "elem" and is_any_iter(x.a[0], self):
                return ("each-any", pos(x.a[0]), aid or any_id(x.a[0]))
        if t.op == "elem" and is_any_iter(t.a[0], self):
            return ("each-any", pos(t.a[0]), aid or any_id(t.a[0]))
        if t.op == "ite":
            a, b = self.target(t.a[1]), self.target(t.a[2])
            if a == b:
                return a
        return ("other", t, aid)


def any_id(t):
    d = dict(t.a[2])
    x = dict(d["any_cluster_nodes"].a[2])["remote_actor_id"]
    return dict(x.a[2]).get("0") if x.op == "adt" and x.a[1] == "Some" else None


def is_any_iter(t, cl):
    if t.op != "adt" or not t.a[0].endswith("AnyClusterNodesIterator"):
        return False
    d = dict(t.a[2])
    a = d["any_cluster_nodes"]
    if a.op != "adt":
        return False
    nd = dict(a.a[2])["nodes"]
    nd = proj(nd, ("nodes",))
    return d["position"] is const(0) and nd is cl.nodes


def find_own(own, n, nodes):
    """recognise sum(0..n) - sum(keys(nodes)); returns own itself when it has this meaning"""
    if own.op != "poly":
        return None
    cs = [x for x in subterms(own) if x.op == "call" and x.a[0].split("::")[-1] == "sum"]
    r = [x for x in cs if x.a[1].op == "adt" and x.a[1].a[0].endswith("Range") and dict(x.a[1].a[2]) == {"start": const(0), "end": n}]
    k = [x for x in cs if contains(x.a[1], lambda y: y is nodes) and (is_call(x.a[1], "keys") or is_call(x.a[1], "into_keys") or x.a[1].op == "seq")]
    if len(r) == 1 and len(k) == 1 and own is sub(r[0], k[0]):
        return own
    # n*(n-1)/2 - sum(keys)
    if len(k) == 1:
        rest = add(own, k[0])
        if rest is idiv(mul(n, sub(n, const(1))), const(2)):
            return own
    return None


def payload_some(v, has):
    v = restrict(v, has)
    return proj(v, ("Some.0",))


def mk_is(v, var):
    return boolt(is_variant(v, var))
