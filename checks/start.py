"""P21 cluster formation: one member list for all nodes, one start of the training."""
from routing import *
from lists import listadds, is_empty_list
from tab import value as tval

LST = "ClusterMemberListener"
CONN = proj(SELF, ("connected_nodes",))
BUF = proj(SELF, ("sorted_addr_buffer",))
NPAR = proj(SELF, ("parameters", "n_cluster_nodes"))
ROLE = proj(SELF, ("parameters", "role"))
HOST = proj(SELF, ("parameters", "local_host"))
SUB = bvar(mk("is", ROLE, "Sub"))


def nm(t):
    return t.a[0].split("::")[-1] if t.op in ("call", "mut") else t.op


def bare(t):
    """drop copies and whole-list conversions"""
    while True:
        if t.op == "collect" and t.a[0].op != "seq":
            t = t.a[0]
        elif t.op == "collect" and t.a[0].op == "seq" and t.a[0].a[1] is elem(t.a[0].a[0]) and asb(t.a[0].a[2]) == 1:
            t = t.a[0].a[0]
        elif t.op == "seq" and t.a[1] is elem(t.a[0]) and asb(t.a[2]) == 1:
            t = t.a[0]
        else:
            return t


def complete_cond(conn):
    """all other nodes are connected"""
    return cmp("eq", LEN(conn), sub(NPAR, const(1)), "usize")


def LEN(t):
    return mk("call", "len", t)


def nlen(b):
    return asb(tnlen(boolt(b)))


def rs(t, cond):
    return restrict_deep(tnlen(t), cond)


def tnlen(t):
    """lengths under one name; is_empty as length zero"""
    m = {}
    for x in subterms(t):
        if x.op == "call" and len(x.a) == 2 and isinstance(x.a[1], T):
            if nm(x) == "len":
                m[x] = LEN(x.a[1])
            elif nm(x) == "is_empty":
                m[x] = boolt(cmp("eq", LEN(x.a[1]), const(0), "usize"))
    return subst(t, m) if m else t


def is_set(E, x, C, _d=0):
    """the set of connected nodes, or what is left of it after taking out nodes that were already placed"""
    x = bare(x)
    if x is C:
        return True
    if _d < 4 and x.op == "loopvar" and x in E.loopinfo:
        init, step, _ = E.loopinfo[x]

        def only_removed(s):
            if s is x:
                return True
            if s.op == "ite":
                return only_removed(s.a[1]) and only_removed(s.a[2])
            return s.op == "mut" and nm(s) in ("remove", "take") and only_removed(s.a[2])
        return is_set(E, init, C, _d + 1) and (step is None or only_removed(step))
    return False


def eqs(cond):
    """pairs of values compared in a conjunction; None if the condition is something else"""
    out = []
    for at in bsupport(cond):
        if at.op in ("eq",) and bimp(cond, bvar(at)):
            out.append(frozenset(at.a[:2]))
        else:
            return None
    return out


def placed(E, M, cond):
    """[(list, key, set, comparison, condition ok)] how the map of nodes was filled; None if unknown"""
    M = rs(M, cond)
    if M.op == "loopvar" and M in E.loopinfo:
        init, step, lid = E.loopinfo[M]
        src = E.lsrc.get(lid)
        if step is None or src is None:
            return None
        if not (init is proj(SELF, ("sorted_nodes",)) or is_empty_list(init)):
            inner = placed_nested(E, M)
            return inner
        out = []

        def go(s, c):
            if s is M:
                return True
            if s.op == "ite":
                return go(s.a[1], band(c, s.a[0])) and go(s.a[2], band(c, bnot(s.a[0])))
            if s.op == "mut" and nm(s) == "insert" and len(s.a) == 5 and s.a[2] is M:
                out.append(([src], s.a[3], s.a[4], c))
                return True
            if s.op == "mut" and nm(s) == "extend" and s.a[2] is M:
                q = s.a[3].a[0] if s.a[3].op == "collect" else s.a[3]
                if q.op == "seq" and q.a[1].op == "tuple":
                    out.append(([src, q.a[0]], q.a[1].a[0], q.a[1].a[1], band(c, asb(q.a[2]))))
                    return True
                return False
            if s.op == "loopvar" and s in E.loopinfo:
                i2, st2, l2 = E.loopinfo[s]
                src2 = E.lsrc.get(l2)
                if i2 is not M or st2 is None or src2 is None:
                    return False

                def go2(y, c2):
                    if y is s:
                        return True
                    if y.op == "ite":
                        return go2(y.a[1], band(c2, y.a[0])) and go2(y.a[2], band(c2, bnot(y.a[0])))
                    if y.op == "mut" and nm(y) == "insert" and len(y.a) == 5 and y.a[2] is s:
                        out.append(([src, src2], y.a[3], y.a[4], c2))
                        return True
                    return False
                return go2(st2, c)
            return False
        return out if go(step, 1) else None
    if M.op == "mut" and nm(M) == "extend":
        if not (M.a[2] is proj(SELF, ("sorted_nodes",)) or is_empty_list(M.a[2])):
            return None
        M = M.a[3]
    if M.op == "collect":
        M = M.a[0]
    if M.op == "seq" and M.a[1].op == "tuple" and len(M.a[1].a) == 2:
        return [([M.a[0]], M.a[1].a[0], M.a[1].a[1], asb(M.a[2]))]
    return None


def placed_nested(E, M):
    return None


def unenum(src):
    """(list, its position term, its element term)"""
    while src.op in ("enumerate",) or (src.op == "call" and nm(src) == "enumerate"):
        src = src.a[0] if src.op == "enumerate" else src.a[1]
    return src


def check_nodes(c, E, inst, M, L, C, cond, where):
    """every member of the list that is connected gets its position in the list as id"""
    r = placed(E, M, cond)
    if r is None or len(r) != 1:
        c.ob("ids", inst, False, "which node gets which id could not be read off: %s" % show(rs(M, cond), 6)[:300], where)
        return
    srcs, key, val, cn = r[0]
    cn = asb(rs(boolt(cn), cond))
    l = unenum(srcs[0])
    okl = bare(l) is L or l is L
    if not okl:
        a, b = listadds(E, l), listadds(E, L)
        okl = bool(a and b and a[0] is b[0] and [(x.src, x.val, x.cond) for x in a[1]] == [(x.src, x.val, x.cond) for x in b[1]])
    c.ob("ids", inst + ": from the list", okl, "ids must follow the member list; they follow %s instead of %s" % (show(l, 5)[:200], show(L, 5)[:200]), where)
    c.ob("ids", inst + ": id", key is mk("pos", l), "a node's id must be its position in the list, it is %s" % show(key, 5)[:200], where)
    a = elem(l)
    ok, why = False, ""
    if len(srcs) == 2:
        s2 = bare(srcs[1])
        v = elem(srcs[1])
        ok = is_set(E, s2, C) and val is v and eqs(cn) == [frozenset((a, proj(v, ("socket_addr",))))]
        why = "node %s of %s if %s" % (show(val, 4), show(s2, 4), showb(cn)[:200])
    elif cn > 1 and any(at.op == "exists" and cn == bvar(at) for at in bsupport(cn)):
        # a search that ends at the first node with the address
        at = [at for at in bsupport(cn) if at.op == "exists"][0]
        inner = bexists(asb(at.a[1]), lambda z: z.op == "is" and z.a[0].op == "iternext")
        ok = is_set(E, at.a[0], C) and val is elem(at.a[0]) and eqs(inner) == [frozenset((a, proj(val, ("socket_addr",))))]
        why = "node %s if %s" % (show(val, 6)[:250], showb(cn)[:250])
    elif val.op == "proj" or val.op == "call" or True:
        some = None
        for at in bsupport(cn):
            if at.op == "is" and at.a[1] == "Some":
                some = at.a[0]
        why = "node %s if %s" % (show(val, 6)[:250], showb(cn)[:250])
        if some is not None and cn == bvar(mk("is", some, "Some")):
            if val is proj(some, ("Some.0",)):
                if some.op in ("first", "find") or (some.op == "call" and nm(some) in ("first", "last", "next")):
                    q = some.a[0] if some.op != "call" else some.a[1]
                    if q.op == "seq":
                        v = q.a[1]
                        ok = is_set(E, q.a[0], C) and v is elem(q.a[0]) and eqs(asb(q.a[2])) == [frozenset((a, proj(v, ("socket_addr",))))]
                elif some.op == "call" and nm(some) in ("get", "remove") and len(some.a) == 3:
                    q, k = some.a[1], some.a[2]
                    while q.op == "loopvar" and q in E.loopinfo:
                        q = E.loopinfo[q][0]
                    q = q.a[0] if q.op == "collect" else q
                    if q.op == "seq" and q.a[1].op == "tuple" and asb(q.a[2]) == 1:
                        ok = is_set(E, q.a[0], C) and k is a and q.a[1].a[0] is proj(elem(q.a[0]), ("socket_addr",)) and q.a[1].a[1] is elem(q.a[0])
                    elif q.op == "seq" and q.a[1].op == "tuple":
                        ok = False
    c.ob("ids", inst + ": node", ok, "the node with that address must get the id; found " + why, where)


def start_sends(c, E, inst, want, M_L_C):
    """exactly one start under `want`, with the nodes placed by their lists"""
    ss = sends(E, "StartTrainingMessage")
    tot, once = 0, True
    for e in ss:
        once = once and not band(tot, nlen(no_panic(e.cond))) and not e.loops
        tot = bor(tot, nlen(no_panic(e.cond)))
        c.ob("start", inst + ": training", origin_addr(e.args[0]) is proj(SELF, ("training",)), "the start must go to the training, not %s" % show(e.args[0], 4), where_of(e))
        p = e.args[1]
        c.ob("start", inst + ": from the input file", proj(p, ("source",)).op == "adt" and proj(p, ("source",)).a[1] == "None" and proj(p, ("data",)).op == "adt" and proj(p, ("data",)).a[1] == "None",
             "a cluster node loads its own data; source %s, data %s" % (show(proj(p, ("source",)), 3), show(proj(p, ("data",)), 3)), where_of(e))
        n = proj(p, ("nodes", "nodes"))
        q = n.a[0] if n.op == "collect" else n
        if q.op == "loopvar" and q in E.loopinfo and is_empty_list(E.loopinfo[q][0]):
            _, stp, lid = E.loopinfo[q]
            if stp is not None and stp.op == "mut" and nm(stp) == "insert" and len(stp.a) == 5 and stp.a[2] is q and lid in E.lsrc:
                q = mk("seq", E.lsrc[lid], mk("tuple", stp.a[3], stp.a[4]), boolt(1))
        M = None
        if q.op == "seq" and asb(q.a[2]) == 1 and q.a[1].op == "tuple" and q.a[1].a[0] is proj(elem(q.a[0]), ("0",)):
            a = q.a[1].a[1]
            if a.op == "call" and nm(a) == "get_remote_addr" and a.a[1] is proj(elem(q.a[0]), ("1",)):
                M = q.a[0]
        c.ob("start", inst + ": nodes", M is not None, "every placed node must be handed over under its id; nodes are %s" % show(n, 6)[:250], where_of(e))
        if M is None:
            continue
        for L, C, cc in M_L_C:
            both = band(nlen(e.cond), cc)
            if both:
                check_nodes(c, E, inst, M, L(both) if callable(L) else L, C, both, where_of(e))
    want_ = no_panic(want)
    c.ob("start", inst + ": once", ss and once, "the training must be started once", where_of(ss[0]) if ss else None)
    c.ob("start", inst + ": when complete", tot == want_, "the training must start exactly when the members are known and connected (%s); it starts if %s" % (showb(want_)[:200], showb(tot)[:200]), where_of(ss[0]) if ss else None)


def origin_addr(t):
    return t


def p21(c):
    op = None
    hb = c.p.handler(LST, "ClusterLog")
    if c.need(hb, "handler of ClusterLog"):
        E = c.run(hb, op, "p21")
        msg = sym("msg")
        new = bvar(mk("is", msg, "NewMember"))
        node = proj(msg, ("NewMember.0",))
        fin = self_final(E)
        C = rs(proj(fin, ("connected_nodes",)), new)
        okc = C.op == "mut" and nm(C) == "insert" and C.a[2] is CONN and C.a[3] is node
        c.ob("members", "a new node is remembered", okc, "a connected node must be added; connected nodes become %s" % show(C, 5)[:200])
        keep = rs(proj(fin, ("connected_nodes",)), bnot(new))
        c.ob("members", "others stay", keep is CONN, "connected nodes change when another node leaves: %s" % show(keep, 4)[:200])
        comp = band(new, complete_cond(C))
        main = band(comp, bnot(SUB))
        # the list for everybody
        ls = sends(E, "SortedMembersMessage")
        tot = 0
        lists_ = []
        for e in ls:
            loops = [bare(l) for l in e.loops]
            c.ob("list", "to every node", len(loops) == 1 and loops[0] is C and not band(tot, e.cond), "the member list must go once to every connected node, not %s" % [show(l, 4)[:120] for l in loops], where_of(e))
            a = e.args[0]
            okt = len(e.loops) == 1 and a.op == "call" and nm(a) == "get_remote_addr" and a.a[1] is elem(e.loops[0]) and a.a[2].op == "const" and a.a[2].a[-1].endswith(LST)
            c.ob("list", "addressed", okt, "the list must go to the node's member listener, not %s" % show(a, 4)[:200], where_of(e))
            L = rs(proj(e.args[1], ("0",)), e.cond)
            lists_.append((L, nlen(e.cond)))
            la = listadds(E, L)
            ok = la is not None and la[0] is None and len(la[1]) == 2
            if ok:
                x, y = la[1]
                ok = x.src is None and x.val is HOST and y.src is not None and is_set(E, y.src, C) and y.val is proj(elem(y.src), ("socket_addr",)) and y.cond == 1
            c.ob("list", "content", ok, "the list must name the main node first, then every connected node: %s" % (la,), where_of(e))
            tot = bor(tot, nlen(no_panic(e.cond)))
        c.ob("list", "when complete", tot == no_panic(main), "the main node sends the list exactly when all nodes are connected; it does if %s" % showb(tot)[:250], where_of(ls[0]) if ls else None)
        have = band(comp, SUB, bnot(empty_atom(BUF)))
        start_sends(c, E, "new member", bor(main, have), [(BUF, C, have)] + [(L, C, lc) for L, lc in lists_])
        bf = proj(fin, ("sorted_addr_buffer",))
        okb = all(x is BUF or is_empty_list(x) and not band(nlen(cd), bnot(have), bnot(empty_atom(BUF))) for cd, x in leaves(bf))
        c.ob("early list", "kept until used", okb, "a received list must stay until the last node connects; it becomes %s" % show(bf, 5)[:200])
        stops = [e for e in E.events if e.kind == "call" and e.name in ("stop", "terminate")]
        st = 0
        for e in stops:
            st = bor(st, nlen(no_panic(e.cond)))
        c.ob("leave", "subs stop when a node leaves", st == band(bnot(new), SUB), "exactly the sub nodes end when a member leaves; stop if %s" % showb(st)[:200], where_of(stops[0]) if stops else None)
    sb = c.p.handler(LST, "SortedMembersMessage")
    if c.need(sb, "handler of SortedMembersMessage"):
        E = c.run(sb, op, "p21")
        L = proj(sym("msg"), ("0",))
        comp = complete_cond(CONN)
        start_sends(c, E, "member list", comp, [(L, CONN, comp)])
        bf = proj(self_final(E), ("sorted_addr_buffer",))
        x = rs(bf, bnot(comp))
        c.ob("early list", "kept", bare(x) is L, "a list that comes before all nodes are connected must be kept; the buffer becomes %s" % show(x, 4)[:200])
        c.ob("early list", "connections kept", proj(self_final(E), ("connected_nodes",)) is CONN, "the list must not change the connected nodes")
    # constructor and life cycle
    nb = [b for b in c.p.bodies.values() if b.get("name") == "new" and base(b.get("self_ty") or "") == LST and not b.get("trait")]
    if c.need(nb, LST + "::new"):
        E = c.run(nb[0], op, "p21")
        for f in ("connected_nodes", "sorted_nodes", "sorted_addr_buffer"):
            v = proj(E.ret, (f,))
            c.ob("initial", f, is_empty_list(v), "%s must start empty, is %s" % (f, show(v, 3)))
    stb = [b for b in c.p.bodies.values() if b.get("name") == "stopped" and base(b.get("self_ty") or "") == LST]
    if c.need(stb, LST + "::stopped"):
        E = c.run(stb[0], op, "p21")
        ok = any(e.kind == "call" and e.name == "stop" and e.args and is_call(e.args[0], "current") and e.cond == 1 for e in E.events)
        c.ob("leave", "process ends", ok, "a stopped listener must stop the system")
    sab = [b for b in c.p.bodies.values() if b.get("name") == "started" and base(b.get("self_ty") or "") == LST]
    if c.need(sab, LST + "::started"):
        E = c.run(sab[0], op, "p21")
        ok = any(e.kind == "call" and e.name.startswith("subscribe_system") and any("ClusterLog" in str(g) for g in e.gargs) and e.cond == 1 for e in E.events)
        c.ob("members", "subscribed", ok, "the listener must subscribe to membership events")
    entry(c)
    handler(c)


def empty_atom(l):
    return cmp("eq", LEN(l), const(0), "usize")


def at_n(b, ns, k):
    """truth of a condition for n nodes, other atoms left"""
    return asb(subst(boolt(b), {ns: const(k)}))


def entry(c):
    """s2gpp / s2gpp_async: who forms a cluster, who starts alone"""
    bs = [b for b in c.p.bodies.values() if b["path"].startswith("s2gpp_async") and b["kind"] != "Fn" and b["path"].endswith("{closure#0}")]
    if not c.need(bs, "s2gpp_async"):
        return
    E = c.run(bs[0], None, "p21")
    P = None
    tr = [e for e in E.events if e.kind == "call" and e.name == "start" and e.args[0].op == "adt" and e.args[0].a[0].endswith("Training")]
    c.ob("entry", "one training", len(tr) == 1 and tr[0].cond == 1 and not tr[0].loops, "exactly one training must be started", where_of(tr[0]) if tr else None)
    ns = [x for e in E.events for x in subterms(boolt(e.cond)) if flat_place(x, ())[1][-1:] == ("n_cluster_nodes",)]
    if not c.need(ns, "n_cluster_nodes in s2gpp_async") or len(tr) != 1:
        return
    n = ns[0]
    root, path = flat_place(n, ())
    P = proj(root, path[:-1])
    par = proj(tr[0].args[0], ("parameters",))
    same = same_value(par, P, c)
    c.ob("entry", "parameters", same, "the training must get the given parameters, not %s" % show(par, 4)[:200], where_of(tr[0]))
    taddr = mk("call", tr[0].fn, *tr[0].args)
    sub_ = bvar(mk("is", proj(P, ("role",)), "Sub"))
    cl = [e for e in E.events if e.kind == "call" and e.name == "new" and e.fn.endswith("Cluster::new")]
    li = [e for e in E.events if e.kind == "call" and e.name == "start" and e.args[0].op == "adt" and e.args[0].a[0].endswith(LST)]
    st = sends(E, "StartTrainingMessage")
    for what, es, want in (("cluster", cl, lambda k: k > 1), ("listener", li, lambda k: k > 1), ("start", st, lambda k: k == 1)):
        tot = 0
        for e in es:
            c.ob("entry", what + " once", not band(tot, e.cond) and not e.loops, "%s twice" % what, where_of(e))
            tot = bor(tot, nlen(no_panic(e.cond)))
        vals = [at_n(tot, n, k) for k in range(1, 6)]
        c.ob("entry", what + " when", all(v == (1 if want(k) else 0) for k, v in zip(range(1, 6), vals)), "%s for 1..5 nodes: %s" % (what, [showb(v)[:60] for v in vals]), where_of(es[0]) if es else None)
    for e in cl:
        c.ob("entry", "own address", e.args[0] is proj(P, ("local_host",)), "the cluster must listen at the own address, not %s" % show(e.args[0], 4), where_of(e))
        s = e.args[1]
        a, b = listadds(E, rs(s, sub_)), listadds(E, rs(s, bnot(sub_)))
        mh = proj(P, ("role", "Sub.mainhost"))
        c.ob("entry", "seed of a sub node", bool(a) and a[0] is None and len(a[1]) == 1 and a[1][0].src is None and a[1][0].val is mh, "a sub node must join the main node; seeds %s" % (a,), where_of(e))
        c.ob("entry", "seed of the main node", bool(b) and b[0] is None and not b[1], "the main node waits for others; seeds %s" % (b,), where_of(e))
    for e in li:
        c.ob("entry", "listener's training", proj(e.args[0], ("training",)) is taddr, "the listener must start the training that was created", where_of(e))
        pp = proj(e.args[0], ("parameters",))
        c.ob("entry", "listener's parameters", same_value(pp, P, c), "the listener must know the given parameters", where_of(e))
    for e in st:
        p = e.args[1]
        c.ob("entry", "alone", e.args[0] is taddr and is_empty_list(proj(p, ("nodes", "nodes"))) and proj(p, ("source",)).a[1:2] == ("None",) and proj(p, ("data",)).a[1:2] == ("None",),
             "alone the training starts without other nodes, from the input file: %s" % show(p, 4)[:250], where_of(e))
    # s2gpp
    fs = [b for b in c.p.bodies.values() if b["path"] == "s2gpp" and b.get("kind") == "Fn"]
    if c.need(fs, "s2gpp"):
        E = c.run(fs[0], lambda b: b.get("name") in ("fit", "s2gpp_async"), "p21")
        data = bvar(mk("is", sym("data"), "Some"))
        fit = [e for e in E.events if e.kind == "call" and e.name == "fit"]
        asy = [e for e in E.events if e.kind == "call" and e.name == "s2gpp_async"]
        rn = [e for e in E.events if e.kind == "call" and e.name == "run"]
        bo = [e for e in E.events if e.kind == "call" and e.name == "block_on"]
        c.ob("entry", "in-memory data", len(fit) == 1 and no_panic(fit[0].cond) == data and fit[0].args[1] is proj(sym("data"), ("Some.0",)), "given data must be fitted", where_of(fit[0]) if fit else None)
        c.ob("entry", "input file", len(asy) == 1 and no_panic(asy[0].cond) == bnot(data) and asy[0].args[0] is sym("params"), "without data the actor system must run", where_of(asy[0]) if asy else None)
        c.ob("entry", "runs until stopped", len(rn) == 1 and bool(bo) and bimp(rn[0].cond, bnot(data)) and bo[0].idx < rn[0].idx and asy and bo[0].args[1] is mk("call", asy[0].fn, *asy[0].args), "the system must run until it is stopped", where_of(rn[0]) if rn else None)
        if fit:
            r = rs(E.ret, data)
            fr = mk("call", fit[0].fn, *fit[0].args)
            okr = contains(r, lambda y: y is proj(fr, ("Ok.0",)) or y is fr)
            c.ob("entry", "scores returned", okr, "the caller must get the scores: %s" % show(r, 5)[:200], where_of(fit[0]))


def same_value(a, P, c, _d=0):
    """a is P, or rebuilt from P field by field"""
    if a is P:
        return True
    if _d > 6:
        return False
    if a.op == "ite":
        return all(same_value(x, P, c, _d + 1) for _, x in leaves(a))
    if a.op == "adt":
        v = a.a[1]
        for f, x in a.a[2]:
            k = f if "::" not in a.a[0] or not v else f
            if not (same_value(x, proj(P, (f,)), c, _d + 1) or (v and same_value(x, proj(P, ("%s.%s" % (v, f),)), c, _d + 1))):
                return False
        return True
    return False


def handler(c):
    hb = c.p.handler("Training", "StartTrainingMessage")
    if not c.need(hb, "handler of StartTrainingMessage"):
        return
    E = c.run(hb, None, "p21")
    msg = sym("msg")
    fin = self_final(E)
    c.ob("begin", "nodes stored", proj(fin, ("cluster_nodes",)) is proj(msg, ("nodes",)), "the training must know the other nodes: %s" % show(proj(fin, ("cluster_nodes",)), 4)[:200])
    c.ob("begin", "recipient stored", proj(fin, ("sink",)) is proj(msg, ("source",)), "the training must know who gets the result: %s" % show(proj(fin, ("sink",)), 4)[:200])
    data = bvar(mk("is", proj(msg, ("data",)), "Some"))
    dm = proj(SELF, ("data_manager", "Some.0"))
    for m, want, f, v in (("LocalReadDataMessage", data, "data", proj(msg, ("data", "Some.0"))), ("LoadDataMessage", bnot(data), "nodes", proj(msg, ("nodes",)))):
        ss = sends(E, m)
        ok = len(ss) == 1 and not ss[0].loops and bimp(ss[0].cond, want) and drop_some(ss[0].cond) == want
        c.ob("begin", m, ok and ss[0].args[0] is dm and proj(ss[0].args[1], (f,)) is v, "%s must be sent once, exactly if data was%s given" % (m, "" if want == data else " not"), where_of(ss[0]) if ss else None)


def drop_some(b):
    return bexists(b, lambda a: a.op == "is" and a.a[1] == "Some" and flat_place(a.a[0], ())[1][-1:] == ("data_manager",))
