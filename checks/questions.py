"""P11 edges across ownership borders: who asks whom for which node, and what comes back."""
from routing import *

NIQ = "NodeInQuestion"


def adder(c):
    """the method of NodeQuestions that files one question (outermost one that takes a question)"""
    bs = [b for b in c.p.bodies.values() if base(b.get("self_ty") or "") == "NodeQuestions" and b["kind"] != "Closure" and "promoted" not in b["key"] and not b.get("derived")
          and any(base(b["locals"][i][0]) == NIQ for i in range(1, b["argc"] + 1))]
    keys = {b["key"] for b in bs}
    inner = set()
    for b in bs:
        E = c.run(b)
        for v in E.visited:
            for x in bs:
                if x is not b and v in (x["key"], x["path"]):
                    inner.add(x["key"])
    bs = [b for b in bs if b["key"] not in inner]
    return bs[0] if len(bs) == 1 else None


def undedup(t):
    while t.op == "mut" and t.a[0].split("::")[-1] in ("dedup", "reserve", "shrink_to_fit"):
        t = t.a[2]
    if t.op == "ite":
        return ite(t.a[0], undedup(t.a[1]), undedup(t.a[2]))
    return canon_list(t)


def no_dup(b, q):
    """questions already filed need not be filed twice"""
    m = {at: FALSE for at in bsupport(b) if at.op == "call" and at.a[0].split("::")[-1] == "contains" and len(at.a) == 3 and at.a[2] is q}
    for at in bsupport(b):
        if at.op == "eq" and any(x is q and is_last(y) for x, y in ((at.a[0], at.a[1]), (at.a[1], at.a[0]))):
            m[at] = FALSE
    return asb(subst(boolt(b), m)) if m else b


def is_last(y):
    """the question filed last between two nodes"""
    return y.op == "field" and y.a[1] == "Some.0" and y.a[0].op == "call" and y.a[0].a[0].split("::")[-1] == "last" and (y.a[0].a[1] is OLD or contains(y.a[0].a[1], lambda z: z.op == "call" and z.a[0] == "GET" and z.a[1] is sym("INNER")))


def check_adder(c, b):
    """(answering param, asking param, condition under which a question is filed)"""
    E = c.run(b)
    ps = params(b)
    q = [p for i, p in enumerate(ps) if base(b["locals"][i + 1][0]) == NIQ][0]
    ad = adt_by_name(c.p, "NodeQuestions")
    fs = [k for k in changed_paths(self_final(E), SELF)] if E.final else []
    M = proj(SELF, ("node_questions",))
    ism = lambda t: origin(E, t) is M

    def isin(t):
        mr = mapref(E, origin(E, t))
        return bool(mr) and ism(mr[0])
    ins = merges(E, sym("INNER"), ismap=isin)
    if not c.ob("filed", "per asking node", len(ins) == 1, "questions are filed at %d places per answering node" % len(ins)):
        return None
    m = ins[0]
    strip = lambda b_: bexists(b_, lambda a: a.op == "is" and a.a[1] == "Some" and contains(a.a[0], lambda y: y is M or y is sym("INNER")) or a.op == "call" and a.a[0].split("::")[-1] in ("contains_key",))
    V = strip(no_dup(m.cond, q))
    one = mk("append", sym("EMPTY"), q)
    ex = lambda t: subst(t, {})
    a_ = undedup(restrict(m.absent, no_dup(m.cond, q)))
    dups = [a for a in subterms(boolt(m.cond)) | subterms(m.present) if a.op == "eq" and no_dup(bvar(a), q) == 0]
    fresh = band(no_dup(m.cond, q), *[bnot(bvar(a)) for a in dups])
    p_ = undedup(restrict(m.present, fresh))
    c.ob("filed", "first", a_ is one, "the first question between two nodes must be filed; filed is %s" % show(a_, 4), m.where)
    c.ob("filed", "further", p_ is mk("append", OLD, q), "a further question between two nodes must be added to the others; they become %s" % show(p_, 4), m.where)
    refs = [mapref(E, origin(E, e.args[0])) for e in E.events if e.kind == "call" and e.args and isinstance(e.args[0], T) and isin(e.args[0])]
    ks = {r[1] for r in refs if r}
    if not c.ob("filed", "per answering node", len(ks) == 1 and list(ks)[0] in ps and m.key in ps, "questions must be filed under the answering and the asking node: %s" % [show(k, 3) for k in ks]):
        return None
    ans, ask = list(ks)[0], m.key
    outs = [x for x in merges(E, M) if x.key is ans]
    other = [x for x in merges(E, M) if x.key is not ans]
    c.ob("filed", "one answering node", not other, "questions are also filed under %s" % [show(x.key, 3) for x in other])
    Vo = None
    via_entry = any(r and r[2] is not None for r in refs)
    for x in outs:
        Vo = strip(drop(x.cond, x.has))
        v = restrict(x.absent, Vo)
        while v.op == "mut" and v.a[0].split("::")[-1] in STRIP:
            v = v.a[2]
        okk = via_entry and (v is MISSING or is_empty_list(v) or v is sym("DEFAULT"))
        if v.op == "collect" and v.a[0].op == "array" and len(v.a[0].a) == 1:
            t = v.a[0].a[0]
            okk = t.op == "tuple" and t.a[0] is ask and undedup(t.a[1]) is one
        elif v.op == "mut" and v.a[0].split("::")[-1] == "insert" and len(v.a) == 5:
            okk = is_empty_list(v.a[2]) and v.a[3] is ask and undedup(v.a[4]) is one
        c.ob("filed", "first for the answering node", okk, "the first question to a node becomes %s" % show(v, 5), x.where)
    c.ob("filed", "new answering node", outs or via_entry, "questions to a node that was not asked before are lost")
    W = V if Vo is None else (V if V == Vo else None)
    c.ob("filed", "same condition", W is not None, "first and further questions are filed under different conditions")
    return ps.index(ans), ps.index(ask), (lambda x, y: asb(subst(boolt(V), {ans: x, ask: y})))


def expand(ts, cond, loops, E=None):
    """unfold loops over lists built from literals, ranges and sequences.
    yields (terms, cond, ranges)"""
    if not loops:
        return [(ts, cond, [])]
    l, rest = loops[0], loops[1:]

    def go(val, c2):
        d = {elem(l): val}
        return [subst(t, d) for t in ts], band(asb(subst(boolt(cond), d)), c2), tuple(subst(x, d) for x in rest)
    if l.op == "ite":
        out = []
        for g, v in ((l.a[0], l.a[1]), (bnot(l.a[0]), l.a[2])):
            if band(cond, g) == 0:
                continue
            t2, c2, r2 = go(elem(v), g)
            out += expand([restrict_deep(t, band(c2, g)) for t in t2], c2, (v,) + r2, E)
        return out
    if l.op == "array":
        out = []
        for x in l.a:
            t2, c2, r2 = go(x, 1)
            out += expand(t2, c2, r2, E)
        return out
    if l.op == "concat" or l.op == "chain":
        out = []
        for x in l.a:
            t2, c2, r2 = go(elem(x), 1)
            out += expand(t2, c2, (x,) + r2, E)
        return out
    if l.op in ("collect", "seq"):
        a = seq_of(l)
        t2, c2, r2 = go(a.val, a.cond)
        return expand(t2, c2, (a.src,) + r2, E)
    if l.op == "call" and l.a[0].split("::")[-1] in ("into_iter", "iter", "into_vec", "to_vec", "clone") and len(l.a) == 2:
        t2, c2, r2 = go(elem(l.a[1]), 1)
        return expand(t2, c2, (l.a[1],) + r2, E)
    if l.op == "call" and l.a[0].endswith("::once") and len(l.a) == 2:
        t2, c2, r2 = go(l.a[1], 1)
        return expand(t2, c2, r2, E)
    if is_empty_list(l):
        return []
    if l.op in ("loopvar", "mut") and E is not None:
        ad = listadds(E, l)
        if ad and ad[0] is None:
            out = []
            for a in ad[1]:
                t2, c2, r2 = go(a.val, a.cond)
                out += expand(t2, c2, (() if a.src is None else (a.src,)) + r2, E)
            return out
    return [(t, cd, [l] + r) for t, cd, r in expand(ts, cond, rest, E)]


def label(ts, named):
    """replace segment/id fields of the named points by plain variables"""
    m = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "field" and x.a[1] in ("segment", "id"):
                r = bare(x.a[0])
                for nm, p in named:
                    if r is p:
                        m[x] = sym("%s.%s" % (nm, x.a[1]))
    return m


def states(E, lid_src, V, a, b):
    """loop-carried option variables: x = None at first, Some(f(step)) after a valid step, else unchanged.
    returns {x: f} with f over the step's points"""
    out = {}
    cand = {x for x, (init, step, lid) in E.loopinfo.items() if step is not None and E.lsrc.get(lid) is lid_src and is_none(init) and not contains(a, lambda y: y is x)}
    V = bexists(V, lambda at: contains(at, lambda y: y in cand))
    for x, (init, step, lid) in E.loopinfo.items():
        if x not in cand or step is None or E.lsrc.get(lid) is not lid_src or not is_none(init):
            continue
        s = restrict(step, V)
        if asb(boolt(is_variant(s, "Some"))) == 1 and restrict(step, bnot(V)) is x:
            out[x] = restrict_deep(proj(s, ("Some.0",)), V)
    return out


def grid_questions():
    for n, rs in ((1, (4,)), (2, (4, 5, 7)), (3, (7, 9)), (4, (9,))):
        for r in rs:
            f = r // n
            O = [min(s // f, n - 1) for s in range(r)]
            for fr in range(r):
                for d in range(1, r // 2 + 1):
                    to = (fr + d) % r
                    edge = sorted({x % r for x in (fr, fr + 1, to, 0, f - 1, f, r - 1)})
                    for pt in [None] + edge:
                        yield n, r, O, fr, to, d, pt


def wanted(O, r, fr, d, pt, FID, PID):
    """questions that must be asked, and those that may be"""
    chain = [(FID, (fr + i) % r) for i in range(1, d + 1)]
    may = set()
    if pt is not None:
        chain = [(PID, pt)] + chain
    else:
        may.add((FID, fr, FID, (fr + 1) % r))
    must = set()
    for (p, s), (q, t) in zip(chain, chain[1:]):
        if O[s] != O[t]:
            must.add((p, s, q, t))
    return must, may


def tabulate(c, E, inst, evs, add, V, named, prevs, when=1, S=None):
    """evs: [(args, cond, loops)] already over PREV/HASPREV"""
    ia, ik, addc = add
    items = []
    for args, cond, loops in evs:
        for ts, cd, rs in expand([args[ia], args[ik], args[-1]], cond, loops, E):
            if when != 1:
                if band(cd, when) == 0:
                    continue
                ts = [restrict_deep(t, when) for t in ts]
                cd = restrict_b(cd, when)
                rs = [restrict_deep(x, when) for x in rs]
            if S:
                ts, cd, rs = [S(x) for x in ts], asb(S(boolt(cd))), [S(x) for x in rs]
            ans, ask, q = ts
            d = [proj(q, (k,)) for k in ("prev_point_id", "prev_point_segment_id", "point_id", "segment_id")]
            cd = band(cd, addc(ans, ask))
            items.append(([ans, ask] + d, cd, rs))
    allt = [boolt(V)] + [t for ts, cd, rs in items for t in ts + [boolt(cd)] + rs]
    m = label(allt, named)
    items = [([subst(t, m) for t in ts], subst(boolt(cd), m), [subst(r, m) for r in rs]) for ts, cd, rs in items]
    Vt = subst(boolt(V), m)
    FID, PID = 100, 50
    n_pts = 0
    for n, r, O, fr, to, d, pt in grid_questions():
        if (pt is None) not in prevs:
            continue
        n_pts += 1
        env = {NCN: const(n), RATE: const(r), sym("a.segment"): const(fr), sym("b.segment"): const(to), sym("a.id"): const(FID), sym("b.id"): const(FID + 1),
               sym("p.segment"): const(0), sym("q.segment"): const(pt or 0), sym("p.id"): const(PID), sym("q.id"): const(PID + 1), sym("HASPREV"): TRUE if pt is not None else FALSE}
        Vg = asb(tab_fold(Vt, env))
        got = set()
        at = "nodes=%d, rate=%d, transition %d->%d, previous transition ends in %s" % (n, r, fr, to, pt)
        for ts, cd, rs in items:
            for e2 in iterate(rs, env):
                if e2 is None:
                    return "%s: cannot enumerate the questions (%s)" % (at, [show(x, 4)[:120] for x in rs]), n_pts
                g = asb(tab_fold(cd, e2))
                g = band(g, Vg)
                if g == 0:
                    continue
                if g != Vg:
                    return "%s: a question is asked only under %s" % (at, showb(g)[:200]), n_pts
                vs = [value(t, e2) for t in ts]
                if any(v is None for v in vs):
                    return "%s: question %s is not a function of the transition" % (at, [show(t, 3)[:60] for t in ts]), n_pts
                ans, ask, p, s, q, t = [int(v) for v in vs]
                if not (0 <= s < r and 0 <= t < r) or ans != O[t] or ask != O[s]:
                    return "%s: node %d is asked on behalf of node %d about segment %d following segment %d" % (at, ans, ask, t, s), n_pts
                if ans != ask:
                    got.add((p, s, q, t))
        must, may = wanted(O, r, fr, d, pt, FID, PID)
        if must - got:
            return "%s: nobody asks for the node of point/segment %s that follows %s" % (at, list(must - got)[0][2:], list(must - got)[0][:2]), n_pts
        if got - must - may:
            return "%s: asked for %s after %s, which are not consecutive" % (at, list(got - must - may)[0][2:], list(got - must - may)[0][:2]), n_pts
    return None, n_pts


def tab_fold(t, env):
    r = _fold_(subst(t, env))
    return r


def iterate(rs, env):
    if not rs:
        yield env
        return
    r = rs[0]
    if not (r.op == "adt" and r.a[0].split("::")[-1] in ("Range", "RangeInclusive") or r.op == "call" and r.a[0].endswith("RangeInclusive::new")):
        yield None
        return
    lo, hi = range_bounds(r)
    a, b = value(lo, env), value(hi, env)
    if a is None or b is None:
        yield None
        return
    for i in range(int(a), int(b)):
        for e2 in iterate([subst(x, {elem(r): const(i)}) for x in rs[1:]], {**env, elem(r): const(i)}):
            yield e2


from tab import _fold as _fold_  # noqa: E402


def asked(c, cl, A, ab, add):
    po = proto_opaque(c.p)
    op = lambda x: po(x) or x["key"] == ab["key"]
    qs = silent(c)
    sc = asb(proj(PAR, ("self_correction",)))
    H, P = bvar(sym("HASPREV")), sym("PREV")
    # steps between own points
    b = c.need(c.p.handler("Training", "RotationDoneMessage"), "handler for RotationDoneMessage")
    r = local_steps(qs, cl, A)
    if c.ob("asked", "own steps found", b and r, "cannot identify the transitions between own points: %s" % [m for _, m, _ in qs.viol][:1]):
        V, a, bb, _ = r
        E = c.run(b, op, "niq")
        evs = [e for e in E.events if e.kind == "call" and e.name == ab["name"] and band(e.cond, bnot(sc)) != 0]
        c.floor("questions about own steps", len(evs), 1)
        pts = [e.loops[0] for e in evs if e.loops]
        if c.ob("asked", "per own step", pts and all(p is pts[0] and strip_list(p) is proj(SELF, ("data_store", "points")) for p in pts), "questions must be asked for every step between own points"):
            st = states(E, pts[0], V, a, bb)
            sub1 = {}
            pa, pb = proj(P, ("from_point",)), proj(P, ("to_point",))
            for x, f in st.items():
                if f.op == "adt" and f.a[0].split("::")[-1] in ("Transition", "MaterializedTransition"):
                    if bares(f) == (bare(a), bare(bb)):
                        sub1[x] = ite(H, some(P), NONE)
                else:
                    m = label([f], [("A", bare(a)), ("B", bare(bb))])
                    f2 = subst(f, m)
                    f3 = subst(f2, {sym("A.segment"): proj(pa, ("segment",)), sym("B.segment"): proj(pb, ("segment",)), sym("A.id"): proj(pa, ("id",)), sym("B.id"): proj(pb, ("id",))})
                    sub1[x] = ite(H, some(f3), NONE)
            S = lambda t: subst(t, sub1)
            evs2 = [(list(e.args), band(e.cond, bnot(sc)), tuple(e.loops[1:])) for e in evs]
            named = [("a", bare(a)), ("b", bare(bb)), ("p", bare(pa)), ("q", bare(pb))]
            w, n = tabulate(c, E, "own", evs2, add, asb(S(boolt(band(V, bnot(sc))))), named, (True, False), S=S)
            c.ob("asked", "own steps (%d cases)" % n, w is None, "for every two consecutive nodes owned by different cluster nodes the owner of the first must ask the owner of the second: %s" % w)
        border(c, cl)
    # step to the next node's first point, and the next node's first transition
    b = c.need(c.p.handler("Training", "SendFirstPointMessage"), "handler for SendFirstPointMessage")
    qs = silent(c)
    r = border_step(qs, cl, A)
    if c.ob("asked", "border step found", b and r, "cannot identify the transition to the next node's first point: %s" % [m for _, m, _ in qs.viol][:1]):
        V, a, bb, _ = r
        E = c.run(b, op, "niq")
        msg = sym(b["locals"][2][1] or "msg")
        evs = [e for e in E.events if e.kind == "call" and e.name == ab["name"]]
        np = bnot(panics(E))
        w0 = asb(proj(SELF, ("segmentation", "waits_for_first_point")))
        lt = proj(SELF, ("segmentation", "last_transition", "Some.0"))
        nt = proj(msg, ("transition",))
        last = (bare(proj(lt, ("from_point",))), bare(proj(lt, ("to_point",))))
        first = tuple(bare(proj(nt, (k,))) for k in ("from_point", "to_point"))
        live = band(w0, is_variant(proj(SELF, ("segmentation", "last_transition")), "Some"), is_variant(proj(SELF, ("segmentation", "last_point")), "Some"))
        # which transition a question is about: by the point it mentions
        def about(e, root):
            x = e.args[-1]
            return any(y.op == "field" and y.a[1] in ("id", "segment") and bare(y.a[0]) in root for l in list(e.loops) + [x, boolt(e.cond)] for y in subterms(l))
        e1 = [e for e in evs if not about(e, first)]
        e2 = [e for e in evs if about(e, first)]
        c.floor("questions about the border step", len(e1), 1)
        c.floor("questions about the next node's first transition", len(e2), 1)
        for inst, es, when, cur, prev in (("border step", e1, V, (bare(a), bare(bb)), last), ("next node's first transition, border step valid", e2, V, first, (bare(a), bare(bb))),
                                          ("next node's first transition, border step invalid", e2, bnot(V), first, last)):
            when = band(when, live)
            if when == 0:
                continue
            ev = [(list(e.args), e.cond, tuple(e.loops)) for e in es]
            named = [("a", cur[0]), ("b", cur[1]), ("p", prev[0]), ("q", prev[1])]
            w, n = tabulate(c, E, inst, ev, add, 1, named, (False,), when)
            c.ob("asked", "%s (%d cases)" % (inst, n), w is None, "%s: for every two consecutive nodes owned by different cluster nodes the owner of the first must ask the owner of the second: %s" % (inst, w))


def walk(E, src, pts, ts, env):
    """the terms ts, after the loop over the points, for the given points"""
    lids = {l for l, s_ in E.lsrc.items() if s_ is src}
    need, todo = [], list(ts)
    while todo:
        for x in subterms(todo.pop()):
            if x.op == "loopvar" and x not in need and x in E.loopinfo and E.loopinfo[x][2] in lids:
                need.append(x)
                todo += [y for y in E.loopinfo[x][:2] if y is not None]
    root, ends_ = root_list(src), {}
    for t in list(ts) + [y for x in need for y in E.loopinfo[x][:2] if y is not None]:
        for x in subterms(t):
            if x.op == "call" and len(x.a) == 2 and strip_list(x.a[1]) is root:
                k = {"first": 0, "last": -1, "next": 0, "next_back": -1}.get(name_of(x))
                if k is not None:
                    ends_[x] = some(pts[k])
                elif name_of(x) == "len":
                    ends_[x] = const(len(pts))
                elif name_of(x) == "is_empty":
                    ends_[x] = FALSE
    env = {**env, **ends_}
    f = lambda t, m: _fold_(subst(t, m))
    cur = {x: f(E.loopinfo[x][0], env) for x in need}
    for k, it in enumerate(items_of(src, pts)):
        m = {**env, **cur, **it}
        cur = {x: f(E.loopinfo[x][1], m) if E.loopinfo[x][1] is not None else x for x in need}
    return [f(t, {**env, **cur}) for t in ts]


def items_of(src, pts):
    """the items of a loop over the points"""
    if src.op == "enumerate" or is_call(src, "enumerate"):
        inner = src.a[0] if src.op == "enumerate" else src.a[1]
        for k, m in enumerate(items_of(inner, pts)):
            yield {pos(src): const(k), **m}
    elif is_call(src, "skip") and src.a[2].op == "num":
        for k, m in enumerate(list(items_of(src.a[1], pts))[int(src.a[2].a[0]):]):
            yield {elem(src): list(m.values())[-1], pos(src): const(k)}
    elif is_call(src, "windows") and src.a[2] is const(2):
        for k in range(len(pts) - 1):
            yield {pos(src): const(k), elem(src): mk("array", pts[k], pts[k + 1])}
    elif src.op == "zip":
        for x, y in zip(items_of(src.a[0], pts), items_of(src.a[1], pts)):
            yield {**x, **y}
    else:
        for k, p in enumerate(pts):
            yield {pos(src): const(k), elem(src): p}


TRAJ = ((0, 1, 3, 6, 7, 1, 2), (0, 0, 5, 6, 6, 4, 4), (5, 4, 3, 4, 4), (7, 2, 2, 7, 3, 5, 5, 4), (3, 6), (2, 1, 7, 7, 3, 3, 2, 0))


def handed(c, cl, E, inst, src, when, env, start=True):
    """what is handed over at the border: the first point, the first and the last valid step, the last point"""
    when = band(when, cl.facts)
    fin = self_final(E)
    last = [restrict(proj(fin, ("segmentation", k)), when) for k in ("last_point", "last_transition")]
    if start:
        buf = proj(SELF, ("segmentation", "first_point_buffer", "Some.0"))
        ss = [e for e in sends(E, "SendFirstPointMessage") if band(e.cond, when) != 0 and e.args[1] is not buf]
        if not c.ob("border", inst + ": handed over", ss, "the first point is not handed over to the previous node"):
            return
        pays = [(proj(e.args[1], ("point",)), proj(e.args[1], ("transition",)), where_of(e)) for e in ss]
    else:
        pays = [(proj(restrict(proj(fin, ("segmentation", "send_point")), when), ("Some.0",)), proj(restrict(proj(fin, ("segmentation", "send_transition")), when), ("Some.0",)), None)]
    R = 8
    rate = proj(PAR, ("rate",))

    def num_(t):
        while t.op == "adt" and dict(t.a[2]).get("0") is not None or t.op == "field" and t.a[1] == "0":
            t = dict(t.a[2])["0"] if t.op == "adt" else t.a[0]
        return proj(point(t), ("id",))
    idt = bare
    for own in (1, 2):
        e0 = {rate: const(R), cl.peers: const(2), **{proj(SELF, ("segmentation", k)): NONE for k in ("send_point", "send_transition", "last_point", "last_transition")}, **env}
        for x in subterms(cl.own):
            if is_call(x, "sum"):
                e0[x] = const(3 if x.a[1].op != "call" else 3 - own)
        for tr in TRAJ:
            pts = [mk("adt", "PointRef", "PointRef", (("0", mk("adt", "Point", "Point", (("id", const(20 + k)), ("segment", const(s_)), ("coordinates", sym("XY%d" % k))))),)) for k, s_ in enumerate(tr)]
            steps = [(20 + k, 21 + k) for k in range(len(tr) - 1) if 0 < (tr[k + 1] - tr[k]) % R <= R // 2]
            at = "points in segments %s" % (list(tr),)
            for pt, ts, wh in pays:
                want = (20, steps[0][0], steps[0][1], 19 + len(tr), steps[-1][0], steps[-1][1])
                terms = [idt(pt)] + [idt(x) for x in ends(ts)] + [idt(proj(last[0], ("Some.0",)))] + [idt(x) for x in ends(proj(last[1], ("Some.0",)))]
                got = [num_(x) for x in walk(E, src, pts, terms, e0)]
                for g, w, what in zip(got, want, ("the point handed to the previous node must be the first", "the transition handed to the previous node must be the first", "the transition handed to the previous node must be the first",
                                                  "the point kept for the border must be the last", "the transition kept for the border must be the last", "the transition kept for the border must be the last")):
                    if not c.ob("border", "%s: %s" % (inst, what), g is const(w), "%s (%s): it has point %s instead of %d" % (what, at, show(g, 4)[:150], w), wh):
                        return


def border(c, cl):
    op = proto_opaque(c.p)
    sc = asb(proj(PAR, ("self_correction",)))
    P = proj(SELF, ("data_store", "points"))
    scb = proj(PAR, ("self_correction",))
    b = c.p.handler("Training", "RotationDoneMessage")
    E = c.run(b, op, "proto")
    srcs = [s for s in E.lsrc.values() if over_points(s, P) and any(x.op == "loopvar" and E.lsrc.get(E.loopinfo[x][2]) is s and x.a[1].a[1][:1] == ("segmentation",) for x in E.loopinfo)]
    if c.ob("border", "own points", len(set(srcs)) >= 1, "the loop over the own points was not found"):
        handed(c, cl, E, "at once", srcs[0], band(bnot(sc), cl.has), {scb: FALSE})
        handed(c, cl, E, "before the decision", srcs[0], band(sc, cl.has), {scb: TRUE}, False)


def over_points(s, P):
    return root_list(s) is P


def root_list(s):
    while True:
        if s.op in ("enumerate", "zip"):
            s = s.a[0]
        elif s.op == "call" and name_of(s) in ("skip", "windows", "iter", "into_iter", "clone", "to_vec", "cloned", "enumerate", "as_slice"):
            s = s.a[1]
        else:
            return s


def name_of(t):
    return t.a[0].split("::")[-1]


def restrict_b(b, c):
    """b under the assumption c (generalised cofactor)"""
    return asb(restrict(boolt(b), c))


def singleton(v):
    """(key, value) of a map with one entry"""
    if v.op == "mut" and v.a[0].split("::")[-1] == "insert" and len(v.a) == 5 and is_empty_list(v.a[2]):
        return v.a[3], v.a[4]
    if v.op == "collect" and v.a[0].op == "array" and len(v.a[0].a) == 1 and v.a[0].a[0].op == "tuple":
        return v.a[0].a[0].a
    return None


def per_node(c, cl, E, msg, path, store, what):
    """every node is sent exactly what was collected for it, under its own index"""
    n = 0
    for e in sends(E, msg):
        n += 1
        t = cl.target(e.args[0])
        if not c.ob("delivered", what + " to all", t[0] in ("each-any", "each-peer"), "%s are sent to %s" % (what, t[0]), where_of(e)):
            continue
        pl = proj(e.args[1], path)
        rs = {x for y in [pl] + list(bsupport(e.cond)) for x in subterms(y) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and len(x.a) == 3 and origin_any(E, x.a[1], store)}
        okk = len(rs) == 1 and list(rs)[0].a[2] is t[1]
        det = ""
        if okk:
            r = list(rs)[0]
            h = is_variant(r, "Some")
            got = restrict(pl, band(e.cond, h)) if band(e.cond, h) else None
            if got is not None:
                sg = singleton(got)
                okk = sg is not None and sg[0] is t[1] and strip_list(sg[1]) is proj(r, ("Some.0",))
                det = show(got, 5)
            no = restrict(pl, band(e.cond, bnot(h))) if band(e.cond, bnot(h)) else None
            if no is not None and okk:
                okk = is_empty_list(no) or singleton(no) is not None and is_empty_list(singleton(no)[1])
                det = show(no, 5)
        c.ob("delivered", what, okk, "every node must get exactly the %s collected for it, under its index: %s %s" % (what, [show(x.a[2], 3) for x in rs], det), where_of(e))
    c.floor("messages with " + what, n, 1)


def origin_any(E, t, store):
    o = origin(E, t)
    if o is store:
        return True
    return o.op == "ite" and origin_any(E, o.a[1], store) and origin_any(E, o.a[2], store)


def taken(c, cl, E, mp, what):
    """the value removed for the own index from the received map"""
    rs = {x for e in E.events for y in list(bsupport(e.cond)) + list(e.loops) + [z for z in e.args if isinstance(z, T)] for x in subterms(y)
          if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and len(x.a) == 3 and x.a[1] is mp}
    own = cl.norm(cl.own)
    if not c.ob("received", what + " for this node", len(rs) == 1 and cl.norm(list(rs)[0].a[2]) is own, "the %s for this node must be taken in; taken are those for %s" % (what, [show(x.a[2], 4) for x in rs])):
        return None
    return list(rs)[0]


def answering(c, cl):
    po = proto_opaque(c.p)
    b = c.need(c.p.handler("Training", "ClusteringResponse"), "handler for ClusteringResponse")
    E = c.run(b, po, "proto")
    per_node(c, cl, E, "AskForForeignNodes", ("asked_nodes", "node_questions"), proj(SELF, ("segmentation", "node_questions", "node_questions")), "questions")
    b = c.need(c.p.handler("Training", "AskForForeignNodes"), "handler for AskForForeignNodes")
    E = c.run(b, po, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    store = proj(SELF, ("node_estimation", "answers"))
    r = taken(c, cl, E, proj(msg, ("asked_nodes", "node_questions")), "questions")
    g = gate_received(E, proto_fields(c.p)["AskForForeignNodes"][0])
    if r is not None and c.ob("answered", "accepted messages", g is not None, "the handler must accept questions through its protocol"):
        answers(c, cl, E, store, r, band(g, is_variant(r, "Some")))
    per_node(c, cl, E, "ForeignNodesAnswer", ("answers",), store, "answers")
    b = c.need(c.p.handler("Training", "ForeignNodesAnswer"), "handler for ForeignNodesAnswer")
    E = c.run(b, po, "proto")
    msg = sym(b["locals"][2][1] or "msg")
    r = taken(c, cl, E, proj(msg, ("answers",)), "answers")
    g = gate_received(E, proto_fields(c.p)["ForeignNodesAnswer"][0])
    if r is None or not c.ob("taken-in", "accepted messages", g is not None, "the handler must accept answers through its protocol"):
        return
    ms = merges(E, proj(SELF, ("node_estimation", "next_foreign_node")))
    if c.ob("taken-in", "stored", len(ms) == 1, "answers are stored at %d places" % len(ms)):
        m = ms[0]
        src = proj(r, ("Some.0",))
        okk = len(m.loops) == 1 and strip_list(m.loops[0]) is src
        c.ob("taken-in", "every answer", okk and no_panic(drop(m.cond, m.has)) == band(g, is_variant(r, "Some")), "every answer must be stored; stored for each of %s under %s" % ([show(l, 4) for l in m.loops], showb(m.cond)[:200]), m.where)
        if okk:
            x = elem(m.loops[0])
            k = mk("tuple", proj(x, ("0",)), proj(x, ("1",)))
            v = mk("tuple", proj(x, ("2",)), proj(x, ("3",)))
            W = drop(m.cond, m.has)
            c.ob("taken-in", "key", m.key is k, "an answer must be stored under the point and segment it follows; it is stored under %s" % show(m.key, 5), m.where)
            c.ob("taken-in", "value", restrict(m.absent, W) is v and restrict(m.present, W) is v, "an answer must be stored with its point and node; stored is %s" % show(m.absent, 5), m.where)


def answers(c, cl, E, store, r, when):
    ms = merges(E, store)
    if not c.ob("answered", "collected", len(ms) == 1, "answers are collected at %d places" % len(ms)):
        return
    m = ms[0]
    W = drop(m.cond, m.has)
    np = bnot(panics(E))
    qmap = proj(r, ("Some.0",))
    isq = lambda t: through(E, t, lambda y: y is qmap)
    a, p_ = restrict(m.absent, when), restrict(m.present, when)
    src = m.loops[0] if m.loops else None
    # per asking node
    if src is not None and src is cl.nodes:
        who = proj(elem(src), ("0",))
    elif src is not None and isq(strip_list(src)):
        who = proj(elem(src), ("0",))
    else:
        who = None
    if not c.ob("answered", "every asking node", who is not None and m.key is who and len(m.loops) == 1, "answers must be collected for every asking node, under its index; collected under %s for each of %s" % (show(m.key, 4), [show(x, 3) for x in m.loops]), m.where):
        return
    c.ob("answered", "all accepted questions", band(drop_gets(W, isq), np) == band(when, np), "questions are answered only under %s" % showb(W)[:250], m.where)
    for lab, v in (("first", a), ("further", p_)):
        v = restrict(v, np)
        if lab == "further":
            okk = v.op in ("concat",) and v.a[0] is OLD
            v = v.a[1] if okk else v
            if not c.ob("answered", "further kept", okk, "answers collected before must be kept; they become %s" % show(v, 4), m.where):
                continue
        qs = None
        if src is cl.nodes:
            gets = {x for x in subterms(v) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and len(x.a) == 3 and isq(x.a[1])}
            if len(gets) == 1 and list(gets)[0].a[2] is who:
                qs = list(gets)[0]
                h = is_variant(qs, "Some")
                none = restrict(v, bnot(h))
                c.ob("answered", lab + ", not asked", is_empty_list(none) or none is sym("EMPTY"), "a node that asked nothing gets %s" % show(none, 3), m.where)
                v = restrict(v, h)
                qs = proj(qs, ("Some.0",))
        else:
            qs = proj(elem(src), ("1",))
        if not c.ob("answered", lab + ", its questions", qs is not None, "the questions answered are not those of the asking node: %s" % show(v, 5), m.where):
            continue
        s = seq_of(v)
        ad = listadds(E, v) if v.op == "loopvar" else None
        if ad and ad[0] is None and len(ad[1]) == 1 and ad[1][0].src is not None:
            s = ad[1][0]
        q = elem(s.src)
        okk = strip_list(s.src) is qs and band(s.cond, np) == np
        c.ob("answered", lab + ", every question", okk, "every question of a node must be answered; answered are %s" % show(v, 5), m.where)
        if okk:
            t = s.val
            n = node_found(E, t, q)
            c.ob("answered", lab + ", with the asked node", n is None, "a question must be answered with the node of its point in its segment, tagged with the point and segment it follows: %s" % n, m.where)


def drop_gets(b, isq):
    return bexists(b, lambda a: a.op == "is" and a.a[0].op == "call" and len(a.a[0].a) == 3 and isq(a.a[0].a[1]))


def node_found(E, t, q):
    """None if t == (q.prev id, q.prev segment, q.point, first node n of q.point with n.segment == q.segment)"""
    fs = [x for x in subterms(t) if x.op == "call" and x.a[0] in ("first",) or x.op == "call" and x.a[0].split("::")[-1] == "next" and x.a[1].op == "seq"]
    tops = [x for x in fs]
    if not tops and t.op == "tuple" and len(t.a) == 4:
        # a loop left at the first node that matches, and a panic if there is none
        es = {x for x in subterms(t.a[3]) if x.op == "elem" and x is not q and not contains(q, lambda y: y is x)}
        ex = {a for a in bsupport(panics(E)) if a.op == "exists" and elem(a.a[0]) in es}
        if len(ex) != 1:
            return "found is %s" % show(t, 6)
        at = list(ex)[0]
        src, cond, full = at.a[0], asb(at.a[1]), t
        n = elem(src)
    elif len(set(tops)) != 1:
        return "found is %s" % show(t, 6)
    else:
        F = tops[0]
        s = F.a[1]
        src, val, cond = s.a[0], s.a[1], asb(s.a[2])
        n = elem(src)
        full = subst(t, {proj(F, ("Some.0",)): val})
    want = [proj(q, (k,)) for k in ("prev_point_id", "prev_point_segment_id", "point_id")]
    if full.op != "tuple" or len(full.a) != 4:
        return "answered is %s" % show(full, 5)
    for w, g in zip(want, full.a):
        if g is not w:
            return "%s instead of %s" % (show(g, 4), show(w, 4))
    nd = full.a[3]
    while nd.op == "call" and nd.a[0].split("::")[-1] in ("clone", "deref_clone", "deref", "as_ref") and len(nd.a) == 2:
        nd = nd.a[1]
    if nd is not n:
        return "the node is %s" % show(nd, 5)
    sg = cmp("eq", proj(n, ("segment",)), proj(q, ("segment_id",)), "usize")
    if cond != sg:
        return "the node is chosen by %s" % showb(cond)[:200]
    look = strip_list(src)
    if not (look.op == "field" and look.a[0].op == "call" and look.a[0].a[0].split("::")[-1] == "get" and look.a[0].a[1] is proj(SELF, ("data_store", "index", "nodes")) and look.a[0].a[2] is want[2]):
        return "the nodes searched are %s" % show(look, 5)
    return None


def p11(c):
    cl = Cluster(c)
    A = assign_fn(silent(c))
    if c.need(A, "segment_id_to_assignment") is None:
        return
    ab = c.need(adder(c), "method of NodeQuestions that files a question")
    if not ab:
        return
    add = check_adder(c, ab)
    if add:
        asked(c, cl, A, ab, add)
    answering(c, cl)
