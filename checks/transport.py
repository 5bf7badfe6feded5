"""P14 what one node sends to another arrives: registration, actor ids, (de)serialisation, reply addresses."""
import re
from routing import *

SENDS = ("do_send", "try_send", "send", "wait_send")


def live(b):
    return b["kind"] != "Closure" and "promoted" not in b["key"]


def hand_bodies(c):
    return [b for b in c.p.bodies.values() if live(b) and b.get("trait") == "actix::Handler"]


def is_wrapper(b):
    return base(b["trait_args"][1]) == "RemoteWrapper"


def opaque_handlers(b):
    return lambda x: x.get("trait") == "actix::Handler" and x is not b


def registered(c):
    """{actor: {message type: condition}}: what the actor accepts from other nodes"""
    reg = {}
    ident = proj(sym("msg"), ("identifier",))
    for b in hand_bodies(c):
        if not is_wrapper(b):
            continue
        A = b["self_ty"]
        E = c.run(b, opaque_handlers(b), "rw")
        names = {}
        d = reg.setdefault(A, {})
        for e in E.events:
            if e.kind != "call" or e.name not in SENDS or len(e.gargs) < 2:
                continue
            M = e.gargs[1]
            m = e.args[1]
            d[M] = e
            raw = m
            while raw.op == "mut" and raw.a[0].split("::")[-1] == "set_source":
                raw = raw.a[2]
            c.ob("delivered", "%s at %s" % (base(M), base(A)), is_call(e.args[0], "address") and not e.loops and len(bsupport(e.cond)) >= 1,
                 "a received %s must be handed to the actor itself, once" % base(M), where_of(e))
            for at in bsupport(e.cond):
                if at.op == "eq" and proj(sym("msg"), ("identifier",)) in at.a:
                    nm = [x for x in at.a if x is not ident]
                    if band(e.cond, bvar(at)) == e.cond:
                        names.setdefault(nm[0], set()).add(M)
        for nm, ms in names.items():
            c.ob("identifier", "%s at %s" % (show(nm), base(A)), len(ms) == 1, "messages %s share the identifier %s" % (sorted(base(m) for m in ms), show(nm)))
        c.ob("identifier", "one per message of " + base(A), set().union(*names.values()) == set(d) if names else not d, "messages without identifier of their own: %s" % sorted(base(m) for m in set(d) - (set().union(*names.values()) if names else set())))
    return reg


def remote_sends(c):
    """{message type: [(function, line)]} of everything sent through a remote address"""
    out = {}
    for b in c.p.bodies.values():
        if "promoted" in b["key"]:
            continue
        for bl in b["blocks"]:
            t = (bl or {}).get("t") or {}
            if t.get("k") != "call" or "path" not in t.get("fn", {}):
                continue
            pth = t["fn"]["path"]
            seg = pth.split("::")
            if seg[-1] in SENDS and re.search(r"\b(RemoteAddr|AnyAddr)\b", pth):
                for m in instances(c, b, t["fn"]["args"][-1]):
                    out.setdefault(m, []).append(b["path"])
    return out


def instances(c, b, ty, depth=0):
    """the types a type parameter of a function stands for, over all its calls"""
    gen = b.get("generics") or []
    names = [g if isinstance(g, str) else g.get("name") for g in gen]
    if ty not in names or depth > 4:
        return [ty]
    out = []
    for x in c.p.bodies.values():
        if "promoted" in x["key"]:
            continue
        for bl in x["blocks"]:
            t = (bl or {}).get("t") or {}
            f = t.get("fn") or {}
            if t.get("k") != "call" or "path" not in f:
                continue
            for g in (f.get("resolved") or {}, f):
                if g.get("key") == b["key"] and len(g.get("args") or ()) == len(names):
                    out += instances(c, x, g["args"][names.index(ty)], depth + 1)
                    break
    return sorted(set(out)) or [ty]


def address_ids(c, E, cl, t, sources, depth=0):
    """set of actor ids (terms) a remote address term may carry; None in it: unknown"""
    if depth > 12:
        return {None}
    if t.op == "mut" and t.a[0].split("::")[-1] == "change_id":
        return {t.a[3]}
    if t.op == "ite":
        return address_ids(c, E, cl, t.a[1], sources, depth + 1) | address_ids(c, E, cl, t.a[2], sources, depth + 1)
    if t.op == "adt":
        if t.a[1] == "Local":
            return set()
        d = dict(t.a[2])
        return address_ids(c, E, cl, d["0"], sources, depth + 1) if "0" in d else {None}
    if t.op == "call" and t.a[0].split("::")[-1] in ("clone", "into", "from", "to_owned") and len(t.a) == 2:
        return address_ids(c, E, cl, t.a[1], sources, depth + 1)
    if t.op == "call" and t.a[0].split("::")[-1] in ("get_remote_addr", "new_from_id", "new_from_key"):
        return {t.a[-1]}
    tg = cl.target(t)
    if tg[0] == "self":
        return set()
    if tg[2] is not None:
        return {tg[2]}
    # addresses kept from an earlier message
    leaves = [x for x in subterms(t) if x.op == "field" and x.a[0] is sym("msg") and x.a[1] not in ("nodes",)]
    if leaves:
        sources.update(x.a[1] for x in leaves)
        return set()
    # all addresses of a table renamed beforehand
    roots = [x for x in subterms(t) if x.op == "field" and x.a[1] == "nodes"]
    ids = set()
    for e in E.events:
        if e.kind == "call" and e.name == "change_id" and len(e.loops) == 1 and any(e.loops[0] is r or e.loops[0] is proj(r, ("nodes",)) for r in roots):
            ids.add(e.args[1])
    return ids or {None}


def is_id(c, t, A):
    if t is None:
        return False
    if t.op == "const" and len(t.a) > 1 and "ACTOR_ID" in str(t.a[0]):
        return base(str(t.a[1])) == base(A)
    s = tab_str(t)
    return s == base(A)


def tab_str(t):
    while t.op == "call" and t.a[0].split("::")[-1] in ("to_string", "to_owned", "into", "from", "clone") and len(t.a) == 2:
        t = t.a[1]
    if t.op == "str" or t.op == "const":
        return str(t.a[0]).strip('"')
    m = re.match(r"^'?\"?([A-Za-z_]+)\"?'?$", show(t, 2))
    return m.group(1) if m else None


def local_types(c, M):
    """local types whose values travel inside M"""
    seen, todo = [], [M]
    while todo:
        t = todo.pop()
        if t in seen or t not in c.p.adts:
            continue
        seen.append(t)
        for v in variants_of(c.p.adts[t]):
            for _, fty in v[1]:
                for n in re.findall(r"[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z_][A-Za-z0-9_]*)*", fty):
                    if n in c.p.adts:
                        todo.append(n)
    return seen


def variants_of(a):
    return [(v["name"], [(f["name"], f["ty"]) if isinstance(f, dict) else (f[0], f[1]) for f in v["fields"]]) for v in a["vars"]]


def serde_body(c, ty, trait, name):
    r = [b for b in c.p.bodies.values() if live(b) and base(b.get("trait") or "") == trait and b.get("name") == name]
    if trait == "Visitor":
        pat = re.compile(r"<impl serde::Deserialize<'de> for %s(?:<.*>)?>::deserialize::__Visitor" % re.escape(ty))
        return [b for b in r if pat.search(b["path"])]
    return [b for b in r if re.sub(r"<.*", "", b.get("self_ty") or "") == ty]


def check_serde(c, ty):
    a = c.p.adts[ty]
    vs = variants_of(a)
    nm = base(ty)
    sb = serde_body(c, ty, "Serialize", "serialize")
    if not c.ob("serialised", nm, len(sb) == 1, "%s is sent to other nodes and needs one Serialize implementation, found %d" % (nm, len(sb))):
        return
    E = c.run(sb[0])
    wrote = []
    for e in E.events:
        if e.kind == "call" and e.name in ("serialize_field", "serialize_newtype_struct", "serialize_newtype_variant", "serialize_element", "skip_field"):
            wrote.append((e, e.args[1] if e.name == "serialize_field" and len(e.args) > 2 else None, e.args[-1]))
    okatoms = lambda at: at.op == "is" and at.a[1] in ("Ok", "Continue") or at.op == "is" and at.a[0] is SELF
    if len(vs) == 1:
        fs = [f for f, _ in vs[0][1]]
        want = [proj(SELF, (f,)) for f in fs]
        got = [unwrap_with(c, ty, w[2]) for w in wrote]
        c.ob("all fields sent", nm, got == want, "fields of %s are %s, but sent are %s" % (nm, fs, [show(x, 4) for x in got]), where_of(wrote[0][0]) if wrote else None)
        c.ob("always sent", nm, all(all(okatoms(at) for at in bsupport(w[0].cond)) for w in wrote), "fields of %s are sent only under conditions" % nm)
        names = [str(w[1].a[0]).strip("'\"") if w[1] is not None and w[1].op in ("str", "const") else tab_str(w[1]) if w[1] is not None else None for w in wrote]
        check_de(c, ty, nm, vs[0], names)
    else:
        want = {(v, f) for v, ff in vs for f, _ in ff}
        n = sum(len(ff) for _, ff in vs)
        c.ob("all fields sent", nm, len(wrote) == n, "the variants of %s have %d fields, %d are sent" % (nm, n, len(wrote)))


def unwrap_with(c, ty, t):
    """#[serde(with = ...)]: the field itself, where the helper module is a library's and writes the whole field"""
    if t.op != "adt" or base(t.a[0]) != "__SerializeWith":
        return t
    v = proj(t, ("values", "0"))
    hs = [b for b in c.p.bodies.values() if live(b) and b.get("name") == "serialize" and "__SerializeWith" in (b.get("self_ty") or "") and re.search(r" for %s>" % re.escape(ty), b["self_ty"])]
    for b in hs:
        E = c.run(b)
        r = E.ret
        if not (r.op == "call" and r.a[0].split("::")[-1] == "serialize" and r.a[1] is proj(SELF, ("values", "0"))):
            return t
        mod_ = r.a[0].split("::")[0]
        ds = [x for x in c.p.bodies.values() if live(x) and x.get("name") == "deserialize" and "__DeserializeWith" in (x.get("self_ty") or "") and re.search(r" for %s>" % re.escape(ty), x["self_ty"])]
        for d in ds:
            calls = [e for e in c.run(d).events if e.kind == "call" and e.name == "deserialize"]
            if [e.fn.split("::")[0] for e in calls] != [mod_]:
                return t
    return v if hs else t


def check_de(c, ty, nm, var, names):
    fs = [f for f, _ in var[1]]
    vb = serde_body(c, ty, "Visitor", "visit_seq")
    if not c.ob("deserialised", nm, len(vb) == 1, "%s is received from other nodes and needs one Deserialize implementation, found %d" % (nm, len(vb))):
        return
    E = c.run(vb[0])
    els = [e for e in E.events if e.kind == "call" and e.name == "next_element"]
    val = E.ret
    while val.op == "ite":
        val = val.a[1] if not (val.a[1].op == "adt" and val.a[1].a[1] == "Err") else val.a[2]
    inner = proj(val, ("Ok.0",))
    got = []
    for f in fs:
        x = proj(inner, (f,))
        got.append(x)
    okk = len(els) == len(fs)
    seq = proj1(sym("x"), "y") and None
    for i, f in enumerate(fs):
        if not okk:
            break
        x = got[i]
        src = mk("call", els[i].fn, *els[i].args)
        okk = contains(x, lambda y: y.op == "call" and y.a[0].split("::")[-1] == "next_element" and y.a[1] is els[i].args[0]) and depth_of(els[i].args[0]) == i and fieldpath(x) and depth_of(inner_el(x)) == i
    c.ob("all fields received", nm, okk, "%s has fields %s; rebuilt on arrival is %s" % (nm, fs, show(inner, 4)))
    mb = serde_body(c, ty, "Visitor", "visit_map")
    if mb and all(names):
        Em = c.run(mb[0])
        miss = [tab_str(e.args[0]) for e in Em.events if e.kind == "call" and e.name == "missing_field"]
        c.ob("field names agree", nm, miss == names, "%s is sent with fields %s but read with %s" % (nm, names, miss))


def depth_of(t):
    n = 0
    while t.op == "mut" and t.a[0].split("::")[-1] == "next_element":
        n += 1
        t = t.a[2]
    return n


def inner_el(x):
    while x.op == "field":
        x = x.a[0]
    return x.a[1] if x.op == "call" and len(x.a) > 1 else x


def fieldpath(x):
    """a deserialised element itself, not something computed from it"""
    while x.op == "field":
        x = x.a[0]
    return x.op == "call" and x.a[0].split("::")[-1] == "next_element"


def check_any_iter(c):
    """going over all nodes of the cluster: peers by their id, the own actor where no peer has the id"""
    b = [b for b in c.p.bodies.values() if live(b) and b.get("name") == "next" and base(b.get("self_ty") or "").startswith("AnyClusterNodesIterator")]
    if not c.need(b, "iteration over all cluster nodes"):
        return
    E = c.run(b[0])
    any_ = proj(SELF, ("any_cluster_nodes",))
    pos_ = proj(SELF, ("position",))
    nodes = proj(any_, ("nodes", "nodes"))
    n = add(mk("call", LEN, nodes), const(1))
    more = cmp("lt", pos_, n, "usize")
    r = E.ret
    if is_variant(r, "Some") != more and upto(is_variant(r, "Some"), more, pos_, mk("call", LEN, nodes)):
        more = is_variant(r, "Some")
    c.ob("all nodes", "as many as in the cluster", is_variant(r, "Some") == more, "iterating over all nodes must go through positions 0..n; it goes on while %s" % showb(is_variant(r, "Some")))
    v = proj(restrict(r, more), ("Some.0",))
    g = mk("call", "std::collections::HashMap::get", nodes, pos_)
    has = is_variant(g, "Some")
    idt = proj(any_, ("remote_actor_id",))
    loc = restrict(v, bnot(has))
    c.ob("all nodes", "own actor", loc.op == "adt" and loc.a[1] == "Local" and proj(loc, ("0",)) is proj(any_, ("local_addr",)), "where no peer has the position the own actor is meant; it is %s" % show(loc, 4))
    rem = restrict(restrict(v, has), is_variant(idt, "Some"))
    x = proj(rem, ("0",)) if rem.op == "adt" and rem.a[1] == "Remote" else None
    okk = x is not None and x.op == "mut" and x.a[0].split("::")[-1] == "change_id" and x.a[2] is proj(g, ("Some.0",)) and x.a[3] is proj(idt, ("Some.0",))
    c.ob("all nodes", "peer", okk, "the peer at the position must be addressed under the requested actor id; it is %s" % show(rem, 5))
    f = restrict(proj(self_final(E), ("position",)), more)
    c.ob("all nodes", "one at a time", f is add(pos_, const(1)), "the position must advance by one; it becomes %s" % show(f, 4))


def p14(c):
    reg = registered(c)
    c.floor("actors reachable from other nodes", len(reg), 3)
    sends = remote_sends(c)
    c.floor("message types sent between nodes", len(sends), 15)
    handled = {}
    for b in hand_bodies(c):
        if not is_wrapper(b):
            handled.setdefault(b["trait_args"][1], set()).add(b["self_ty"])
    for M, fns in sorted(sends.items()):
        if M.split("<")[0] not in c.p.adts:
            if re.match(r"^[A-Z][A-Za-z]*$", M):
                c.ob("known message", M, False, "generic message type sent in %s: cannot be resolved" % fns[0])
            continue
        acts = [a for a in handled.get(M, ()) if a in reg]
        okk = bool(acts) and all(M in reg[a] for a in acts)
        c.ob("accepted", base(M), okk, "%s is sent to other nodes by %s, but no remote actor accepts it (handled by %s)" % (base(M), fns[0], sorted(base(a) for a in handled.get(M, ()))))
    # actors answer under their id once started
    for A in reg:
        st = [b for b in c.p.bodies.values() if live(b) and b.get("name") == "started" and b.get("trait") == "actix::Actor" and b["self_ty"] == A]
        okk = False
        if st:
            E = c.run(st[0])
            okk = any(e.kind == "call" and e.name == "register" and e.cond == 1 and contains(e.args[1], lambda y: is_call(y, "address")) for e in E.events)
        c.ob("registered", base(A), okk, "%s must register itself for messages of other nodes when it starts" % base(A))
    # actor ids of the addresses used
    bodies = [b for b in c.p.bodies.values() if live(b) and (b.get("trait") in ("actix::Handler", "actix::StreamHandler", "actix_telepathy::ClusterListener", "actix::Actor")) and not (b.get("trait") == "actix::Handler" and is_wrapper(b))]
    srcs = {}
    payload = {}
    nsend = 0
    cl0 = Cluster(c)
    for b in bodies:
        E = c.run(b, opaque_handlers(b), "h" + b["key"])
        for e in E.events:
            if e.kind != "call" or e.name not in SENDS or not re.search(r"\b(RemoteAddr|AnyAddr)\b", e.fn):
                continue
            M = e.gargs[-1]
            nsend += 1
            payload.setdefault(M, []).append(e.args[1])
            sources = set()
            ids = address_ids(c, E, cl0, e.args[0], sources)
            acts = [a for a in handled.get(M, ()) if a in reg]
            if sources:
                own = b["trait_args"][1] if len(b["trait_args"]) > 1 else None
                for s in sources:
                    srcs.setdefault((own, s), set()).update(acts)
            for i in ids:
                c.ob("receiver", "%s from %s" % (base(M), base(b["trait_args"][1]) if len(b["trait_args"]) > 1 else b["name"]), any(is_id(c, i, a) for a in acts),
                     "%s is addressed to actor %s of another node; it is handled by %s" % (base(M), "unknown" if i is None else show(i), sorted(base(a) for a in acts)), where_of(e))
    c.floor("sends to other nodes analysed", nsend, 18)
    # reply addresses: id of the asking actor, connection filled in on arrival
    for (own, f), acts in srcs.items():
        if own is None:
            continue
        for v in payload.get(own, []):
            ids = address_ids(c, None, cl0, proj(v, (f,)), set())
            for i in ids:
                c.ob("reply address", "%s.%s" % (base(own), f), any(is_id(c, i, a) for a in acts), "answers to %s go to actor %s, handled by %s" % (base(own), "unknown" if i is None else show(i), sorted(base(a) for a in acts)))
    for M in sorted(sends):
        if M not in c.p.adts:
            continue
        for v in variants_of(c.p.adts[M]):
            for f, ty in v[1]:
                if base(ty) == "RemoteAddr":
                    b = [b for b in c.p.bodies.values() if live(b) and b.get("name") == "set_source" and b.get("self_ty") == M]
                    okk = False
                    if b:
                        E = c.run(b[0])
                        ps = params(b[0])
                        ni = proj(self_final(E), (f, "node", "network_interface"))
                        okk = ni is some(ps[1])
                    c.ob("reply connection", "%s.%s" % (base(M), f), okk, "the sender's connection must be stored in %s.%s on arrival" % (base(M), f))
        for ty in local_types(c, M):
            check_serde(c, ty)
    for b in c.p.bodies.values():
        if live(b) and (b.get("name") == "materialize" and b.get("trait") or b.get("name") == "into_transition"):
            E = c.run(b)
            r = E.ret
            nm = "%s for %s" % (b["name"], base(b["self_ty"]))
            if r is SELF:
                c.ob("same content", nm, True)
                continue
            d = dict(r.a[2]) if r.op == "adt" else {}

            def core(t):
                while t.op == "adt" and len(t.a[2]) == 1:
                    t = t.a[2][0][1]
                ks = []
                while t.op == "field":
                    ks.append(t.a[1])
                    t = t.a[0]
                return (ks[-1] if ks else None) if t is SELF and all(k == "0" for k in ks[:-1]) else None
            c.ob("same content", nm, bool(d) and all(core(v) == k for k, v in d.items()), "%s must keep every part of the value; it yields %s" % (nm, show(r, 5)))
    check_any_iter(c)
    c.assume.append("actix-telepathy delivers to the actor registered under the id, which its derive macro makes the actor's type name, and restores what serde wrote")


def uniq(xs):
    return list(dict.fromkeys(xs))
