"""Query helpers over engine runs."""
from framework import *  # noqa
import re

SELF = sym("self")
MSG = None

SEND_NAMES = {"do_send", "try_send", "send", "wait_send", "notify", "notify_later"}


def is_send(e):
    return e.kind == "call" and e.name in SEND_NAMES and (e.fn.startswith("actix"))


def msg_type(e):
    return base(e.gargs[-1]) if e.gargs else ""


def sends(E, msg=None):
    out = []
    for e in E.events:
        if is_send(e):
            m = None
            # message type argument: last generic argument of do_send
            m = msg_type(e)
            if e.fn.endswith("notify") or e.fn.endswith("notify_later"):
                m = base(e.gargs[-1])
            if msg is None or m == msg:
                out.append(e)
    return out


def is_remote(e):
    return e.fn.startswith("actix_telepathy")


def payload_of(e):
    return e.args[1]


def restrict(t, c):
    """value of t under the assumption c (BDD)"""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in memo:
            return memo[x]
        if x.op == "ite":
            if bimp(c, x.a[0]):
                r = go(x.a[1])
            elif bimp(c, bnot(x.a[0])):
                r = go(x.a[2])
            else:
                r = ite(brestrict(x.a[0], c), go(x.a[1]), go(x.a[2]))
        elif x.op == "bool":
            n = x.a[0]
            r = TRUE if bimp(c, n) else FALSE if bimp(c, bnot(n)) else boolt(brestrict(n, c))
        elif x.op == "upd":
            r = mkupd(go(x.a[0]), {k: go(v) for k, v in x.a[1]})
        elif x.op == "adt":
            r = mk("adt", x.a[0], x.a[1], tuple((k, go(v)) for k, v in x.a[2]))
        elif x.op == "tuple":
            r = mk("tuple", *[go(y) for y in x.a])
        else:
            r = x
        memo[x] = r
        return r
    return go(t)


def restrict_deep(t, c):
    """like restrict, also inside calls and element terms"""
    t = restrict(t, c)
    for _ in range(4):
        m = {}
        for x in subterms(t):
            if x.op == "ite":
                if bimp(c, x.a[0]):
                    m[x] = x.a[1]
                elif bimp(c, bnot(x.a[0])):
                    m[x] = x.a[2]
        if not m:
            return t
        t = subst(t, m)
    return t


def changed_paths(final, orig, pre=()):
    """leaf paths where an updated object differs from the original value; {path: new value}"""
    out = {}
    if final is orig:
        return out
    if final.op == "upd":
        b = final.a[0]
        bo = orig
        if b is bo or True:
            for k, v in final.a[1]:
                kk = k if isinstance(k, str) else "[]"
                o = proj1(bo, k)
                sub_ = changed_paths(v, o, pre + (kk,))
                out.update(sub_)
            if b is not bo:
                out.update(changed_paths(b, bo, pre) if b.op != "upd" else {})
            return out
    if final.op == "adt" and orig.op == "adt" and final.a[:2] == orig.a[:2]:
        do = dict(orig.a[2])
        for k, v in final.a[2]:
            out.update(changed_paths(v, do[k], pre + (k,)))
        return out
    out[pre] = final
    return out


def self_final(E, s=SELF):
    return E.final.get(("O", s), s) if E.final is not None else s


def place_of(t):
    """(root term, keys) of a raw reference argument"""
    if t.op == "ref":
        r, k = t.a[0], t.a[1]
        if r[0] == "O":
            return flat_place(r[1], k)
        return (r, k)
    return flat_place(t, ())


def flat_place(t, ks):
    while t.op == "field":
        ks = (t.a[1],) + tuple(ks)
        t = t.a[0]
    return (t, tuple(ks))


def fieldpath(t):
    """dotted path of a term rooted at self (through Some./[ ] projections), else None"""
    ks = []
    while True:
        if t.op == "field":
            ks.append(t.a[1])
            t = t.a[0]
        elif t.op == "index":
            ks.append("[]")
            t = t.a[0]
        elif t.op == "upd":
            t = t.a[0]
        else:
            break
    if t.op == "sym":
        return (t.a[0],) + tuple(reversed(ks))
    return None


def find(t, pred):
    return [x for x in subterms(t) if pred(x)]


def is_call(t, name, n=None):
    if isinstance(name, tuple):
        return any(is_call(t, x, n) for x in name)
    return t.op == "call" and t.a[0].split("::")[-1] == name and (n is None or len(t.a) == n + 1)


# number of peers: |cluster_nodes.nodes|; invariant of a started run: n_cluster_nodes == peers + 1
def peers(nodes_path):
    return mk("call", "std::collections::HashMap::len", nodes_path)


NODES = proj(SELF, ("cluster_nodes", "nodes"))
N_PARAM = proj(SELF, ("parameters", "n_cluster_nodes"))
PEERS = peers(NODES)


def norm_n(t, nodes=NODES, n_param=N_PARAM):
    """rewrite the configured node count to peers+1 (equal in a started run)"""
    return subst(t, {n_param: add(peers(nodes), const(1))})


def adt_type(prog, pred):
    return [a for a in prog.adts.values() if pred(a)]


def field_types(prog, ty, depth=4, pre=()):
    """[(path, type string)] of all (nested, crate-local) struct fields of a type"""
    out = []
    a = prog.adts.get(strip_generics(ty))
    if a is None or a["enum"] or depth == 0:
        return out
    for n, t in a["vars"][0]["fields"]:
        out.append((pre + (n,), t))
        out += field_types(prog, t, depth - 1, pre + (n,))
    return out


def adt_by_name(prog, name):
    for p, a in prog.adts.items():
        if p.split("::")[-1] == name:
            return a
    return None


def ev_before(E, a, b):
    return a.idx < b.idx


def mutating(e):
    """event changes state or is observable outside (ignoring logging / formatting)"""
    if e.kind == "write":
        return True
    if is_send(e):
        return True
    if e.kind == "call" and any(t.startswith("&mut") for t in e.argty) and not any("Context<" in t for t in e.argty if t.startswith("&mut")):
        return True
    return False


def no_panic(cond):
    """condition with 'no iteration of an earlier loop panicked or broke off' left out"""
    for a in bsupport(cond):
        if a.op == "exists":
            cond = bor(bcompose(cond, {a: 0}), bcompose(cond, {a: 1}))
    return cond
