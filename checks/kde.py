"""P22 density clustering of a segment's crossings, independent of the number of threads."""
from pca import *
from scoring import helper_value
from start import nlen, tnlen, nm
from fractions import Fraction
import math
from lists import listadds, is_empty_list
from geo import Geo, Unknown

MK, GK, EH = "MultiKDEActor", "GaussianKDEActor", "EstimatorHelper"
ND = proj(SELF, ("next_dim",))


def body_of(c, actor, msg):
    b = c.p.handler(actor, msg)
    return c.need(b, "handler of %s at %s" % (msg, actor))


def fin_of(E, ks, cond=1):
    return restrict_deep(proj(self_final(E), ks), cond)


def kde_columns(c, E, inst, D, kde):
    """every dimension once and in order, then one answer"""
    gs, rs_ = sends(E, "GaussianKDEMessage"), sends(E, "ClusteringResponse")
    bad = None
    for rows, cols in ((3, 1), (2, 2), (3, 3)):
        for nd in range(cols + 1):
            C = Cells(E, {ND: const(nd)}, {D: (rows, cols)})
            try:
                on = [e for e in gs if C.truth(no_panic(e.cond))]
                off = [e for e in rs_ if C.truth(no_panic(e.cond))]
                if (len(on), len(off)) != ((1, 0) if nd < cols else (0, 1)) or any(e.loops for e in on + off):
                    bad = bad or "with %d of %d dimensions done, %d dimensions are started and %d answers sent" % (nd, cols, len(on), len(off))
                    continue
                if nd < cols:
                    e = on[0]
                    col = proj(e.args[1], ("column",))
                    if C.shape(col) != (rows, 1) or any(C.at(col, (i, 0)) is not mk("cell", D, const(i), const(nd)) for i in range(rows)):
                        bad = bad or "dimension %d of %d: the estimated column is %s" % (nd, cols, show(col, 4)[:120])
                    if fin_of(E, ("next_dim",), e.cond) is not add(ND, const(1)):
                        bad = bad or "after dimension %d comes %s" % (nd, show(fin_of(E, ("next_dim",), e.cond), 4))
                    cur = fin_of(E, ("current_column", "Some.0"), e.cond)
                    if C.shape(cur) != (rows, 1) or any(C.at(cur, (i, 0)) is not mk("cell", D, const(i), const(nd)) for i in range(rows)):
                        bad = bad or "dimension %d: peaks will be assigned to %s" % (nd, show(cur, 4)[:120])
            except Unknown as u:
                bad = bad or "not understood: %s" % u
    c.ob("dimensions", inst, bad is None, "every dimension of the crossings must be estimated once, in order, and then answered once: %s" % bad, where_of((gs + rs_)[0]) if gs + rs_ else None)
    for e in gs:
        c.ob("dimensions", inst + ": to the estimator", e.args[0] is kde, "the column goes to %s" % show(e.args[0], 3)[:150], where_of(e))
    for e in rs_:
        c.ob("answer", inst + ": to the receiver", e.args[0] is proj(SELF, ("receiver",)), "the labels go to %s" % show(e.args[0], 3), where_of(e))
        labels(c, E, inst, e)


def labels(c, E, inst, e):
    """one label per row; equal rows of centers, and only those, share it"""
    lab = restrict_deep(proj(e.args[1], ("labels",)), e.cond)
    la = listadds(E, lab)
    ok = la is not None and la[0] is None and la[1] and len({a.src for a in la[1]}) == 1 and la[1][0].src is not None
    tot = 0
    if ok:
        src = la[1][0].src
        rows = src
        while rows.op in ("enumerate",):
            rows = rows.a[0]
        ok = cells.name(rows) in cells.AXIT and (cells.name(rows) not in ("axis_iter",) or cells.axis(rows.a[2]) == 0)
    if not c.ob("labels", inst + ": one per crossing", ok, "labels must be collected over the rows of centers: %s" % (la,), where_of(e)):
        return
    row = elem(rows)
    has = None
    for a in la[1]:
        ok = ok and not band(tot, a.cond)
        tot = bor(tot, a.cond)
    c.ob("labels", inst + ": for every crossing", ok and tot == 1, "a crossing may get no label or two: labels are pushed if %s" % showb(tot)[:150], where_of(e))
    v = const(0)
    for a in la[1]:
        v = ite(a.cond, a.val, v)
    gets = {x for x in subterms(v) if cells.name(x) in ("get", "or_insert", "or_insert_with") and x.op == "call"} | {x for at in bsupport(bor(*[a.cond for a in la[1]])) for x in subterms(at) if cells.name(x) == "get"}
    gets |= {x for a in la[1] for at in bsupport(a.cond) for x in subterms(at) if cells.name(x) in ("get", "contains_key")}
    okk, why = False, "no lookup of the centers"
    for g in gets:
        key = g.a[2] if cells.name(g) in ("get", "contains_key") and len(g.a) == 3 else None
        mp = g.a[1]
        new = None
        if key is None and mp.op == "call" and cells.name(mp) == "entry":
            key, new, mp = mp.a[2], g.a[2], mp.a[1]
        if key is None:
            continue
        if not whole_row(key, row):
            why = "centers are looked up by %s" % show(key, 5)[:150]
            continue
        if cells.name(g) == "get":
            h = bvar(mk("is", g, "Some"))
            old = restrict(v, h)
            if old is not proj(g, ("Some.0",)):
                why = "known centers get %s" % show(old, 4)[:120]
                continue
            new = restrict(v, bnot(h))
        elif cells.name(g) == "contains_key":
            h = asb(g)
            old = restrict(v, h)
            if not any(m is mp and k is key and x is old for m, k, x in lookups(old)):
                why = "known centers get %s" % show(old, 4)[:120]
                continue
            new = restrict(v, bnot(h))
        else:
            h = None
        # the map: insert (key, new) when missing
        if mp not in E.loopinfo or not is_empty_list(E.loopinfo[mp][0]):
            why = "the map of centers starts as %s" % show(E.loopinfo.get(mp, [mp])[0], 3)
            continue
        step = E.loopinfo[mp][1]
        if h is not None:
            ins = restrict_deep(step, bnot(h))
            same = restrict_deep(step, h)
            if not (ins.op == "mut" and cells.name(ins) == "insert" and ins.a[2] is mp and ins.a[3] is key and ins.a[4] is new and same is mp):
                why = "new centers are remembered as %s" % show(ins, 4)[:150]
                continue
        # a fresh number: counter or size of the map
        fresh = is_call(new, "len") and new.a[1] is mp
        if new in E.loopinfo:
            i0, st, _ = E.loopinfo[new]
            fresh = fresh or (i0 is const(0) and st is not None and (h is None or (restrict(st, bnot(h)) is add(new, const(1)) and restrict(st, h) is new)))
        if not fresh:
            why = "new centers get the label %s" % show(new, 4)[:120]
            continue
        okk = True
    c.ob("labels", inst + ": same centers, same label", okk, "crossings share a label exactly if their centers agree in all dimensions: %s" % why, where_of(e))
    # all dimensions' centers enter, in order
    base_ = rows.a[1]
    srcs = [x for x in subterms(base_) if x.op == "loopvar" and x in E.loopinfo]
    okc = contains_path(E, base_, ("cluster_centers",))
    c.ob("labels", inst + ": of all dimensions", okc, "labels must be read off the centers of all dimensions", where_of(e))


def contains_path(E, t, path, _d=0):
    for x in subterms(t):
        if flat_place(x, ()) == (SELF, path) or x is proj(SELF, path):
            return True
        if x.op == "loopvar":
            r, ks = x.a[1].a[0], tuple(x.a[1].a[1])
            if r == ("O", SELF) and ks == path:
                return True
            if x in E.loopinfo and _d < 4:
                i, s, _ = E.loopinfo[x]
                if contains_path(E, i, path, _d + 1) or (s is not None and contains_path(E, s, path, _d + 1)):
                    return True
    return False


def whole_row(key, row):
    t = key
    while t.op == "collect":
        t = t.a[0]
    if t.op == "call" and len(t.a) == 2 and cells.name(t) in ("to_vec", "from_array_view_clone", "from_array_view", "from_array"):
        return t.a[1] is row
    return t.op == "seq" and t.a[0] is row and asb(t.a[2]) == 1 and contains(t.a[1], lambda y: y is elem(row))


def p22(c):
    # constructors
    nb = [b for b in c.p.bodies.values() if b.get("name") == "new" and base(b.get("self_ty") or "") == MK]
    res_m = order = None
    if c.need(nb, MK + "::new"):
        E = c.run(nb[0])
        c.ob("initial", "first dimension", proj(E.ret, ("next_dim",)) is const(0) and is_empty_list(proj(E.ret, ("cluster_centers",))), "clustering must start with dimension 0 and no centers")
        res_m = proj(E.ret, ("multi_kde_base", "resolution"))
        order = proj(E.ret, ("multi_kde_base", "peak_order"))
    lin = {}
    b = body_of(c, MK, "MultiKDEMessage")
    res_g = None
    if b:
        E = c.run(b)
        D = proj(sym("msg"), ("data",))
        st = [e for e in E.events if e.kind == "call" and e.name == "start" and e.args and e.args[0].op == "adt" and e.args[0].a[0].endswith(GK)]
        if c.ob("estimator", "started", len(st) == 1 and st[0].cond == 1, "one density estimator must be started"):
            g = st[0].args[0]
            res_g = proj(g, ("resolution",))
            me = proj(g, ("receiver", "Some.0"))
            c.ob("estimator", "answers here", is_call(me, "recipient") and is_call(me.a[1], "address"), "the estimator answers to %s" % show(me, 3), where_of(st[0]))
            kde_columns(c, E, "first", D, mk("call", st[0].fn, *st[0].args))
            c.ob("dimensions", "crossings kept", fin_of(E, ("data", "Some.0")) is D, "the crossings must be kept for the next dimension: %s" % show(fin_of(E, ("data",)), 3))
            c.ob("dimensions", "estimator kept", fin_of(E, ("gaussian_kde", "Some.0")) is mk("call", st[0].fn, *st[0].args), "the estimator must be kept for the next dimension")
    b = body_of(c, MK, "GaussianKDEResponse")
    if b:
        E = c.run(b)
        kde_columns(c, E, "next", proj(SELF, ("data", "Some.0")), proj(SELF, ("gaussian_kde", "Some.0")))
        cc = proj(SELF, ("cluster_centers",))
        ps = [e for e in E.events if e.kind == "call" and e.name in ("push", "push_back", "extend", "insert", "append", "resize") and e.args and e.args[0] is cc]
        col, est = proj(SELF, ("current_column", "Some.0")), proj(sym("msg"), ("kernel_estimate",))
        ok = len(ps) == 1 and ps[0].name == "push" and no_panic(ps[0].cond) == 1 and not ps[0].loops
        c.ob("centers", "one list per dimension", ok, "each dimension must add its centers once (%d places)" % len(ps), where_of(ps[0]) if ps else None)
        if ok:
            v = ps[0].args[1]
            c.ob("centers", "of this dimension", reaches(E, v, col) and reaches(E, v, est), "the centers must come from the current column and its density: %s" % show(v, 4)[:200], where_of(ps[0]))
            nearest_peak(c, E, v, col, est, order, ps[0], [x for x in E.events if x.kind == "call" and x.name == "linspace"])
        lin["peaks"] = ([e for e in E.events if e.kind == "call" and e.name == "linspace"], col, proj(SELF, ("multi_kde_base", "resolution")), res_m)
    b = body_of(c, GK, "GaussianKDEMessage")
    if b:
        E = c.run(b)
        tasks(c, E)
        lin["density"] = ([e for e in E.events if e.kind == "call" and e.name == "linspace"], proj(sym("msg"), ("column",)), proj(SELF, ("resolution",)), res_g)
    grid = {}
    for k, (es, col, res, val) in lin.items():
        if c.ob("grid", k, len(es) >= 1, "no grid for the %s" % k):
            e = es[0]
            m = {col: sym("COL"), res: val if val is not None else sym("RES")}
            grid[k] = tuple(subst(x, m) for x in e.args)
    if len(grid) == 2:
        a, b_ = grid["peaks"], grid["density"]
        c.ob("grid", "the same for density and peaks", a == b_, "the density is estimated at %s, but peaks are looked up at %s" % ([show(x, 5)[:80] for x in b_], [show(x, 5)[:80] for x in a]))
    answers(c)
    helper(c)


DENS = ([.1, .5, .9, .4, .2, .3, .8, .85, .1, .05], [.0, .0, .0, .3, .1, .0, .0, .0, .2, .0, .0], [.9, .5, .2, .6, .6, .1, .4, .7],
        [.2, .1, .4, .3, .45, .2, .1, .6, .5], [.1, .2, .3, .4, .5, .6, .7], [.5, .5, .5, .5, .5])
COLS = ([.0, .3, .5, .52, 1., .9, .6, .2], [-2., 6., -1.5, .25, 3.5, 5.], [4., 2., 3., 1.])


def nearest_peak(c, E, v, col, est, order, e, lin):
    """the center of a crossing is the grid point closest to it among those whose density exceeds both neighbours'"""
    MB = proj(SELF, ("multi_kde_base",))
    o = tab.value(order, {}) if order is not None else None
    if not isinstance(o, (int, Fraction)):
        c.assume.append("the neighbourhood of a peak is not a constant, so the peaks are not decided")
        return
    bad = None
    for K in DENS:
        for X in COLS:
            n = len(K)
            env = {est: list(K), col: [[x] for x in X], proj(MB, ("resolution",)): n, proj(MB, ("peak_order",)): int(o)}
            flat_env = {**env, col: list(X)}      # where the code goes through the values of the column one by one
            try:
                G = Geo(E, env)
                grid = [float(x) for x in G(mk("call", lin[0].fn, *lin[0].args))]
                if len(grid) != n:
                    raise Unknown("grid")
            except (Unknown, IndexError, TypeError) as u:
                c.assume.append("the grid could not be evaluated: %s" % u)
                return
            pk = [grid[i] for i in range(1, n - 1) if K[i] > K[i - 1] and K[i] > K[i + 1]]
            ds = [sorted(abs(p - x) for p in pk) for x in X]
            if any(len(d) > 1 and d[1] - d[0] < 1e-6 for d in ds):
                continue
            try:
                try:
                    got = G(v)
                except Unknown:
                    got = Geo(E, flat_env)(v)
                if not isinstance(got, (list, tuple)) or len(got) != len(X) or not all(isinstance(g, (int, float, Fraction)) for g in got):
                    raise Unknown("centers %s" % (str(got)[:80],))
            except Unknown as u:
                c.assume.append("the peaks could not be evaluated: %s" % u)
                return
            if pk:
                want = [min(pk, key=lambda p: abs(p - x)) for x in X]
                if any(abs(g - w) > 1e-6 for g, w in zip(got, want)):
                    bad = bad or "density %s, crossings at %s: centers %s instead of %s" % (K, X, [round(float(g), 3) for g in got], [round(w, 3) for w in want])
            elif len({float(g) for g in got}) != 1:
                bad = bad or "density %s has no peak, but the crossings are put apart: %s" % (K, got)
    c.ob("centers", "closest peak", bad is None, "a crossing belongs to the density peak closest to it: %s" % bad, where_of(e))


def reaches(E, t, x):
    """x flows into t, also around loops"""
    todo, seen = [t], set()
    while todo:
        y = todo.pop()
        for z in subterms(y):
            if z is x:
                return True
            if z.op == "loopvar" and z in E.loopinfo and z not in seen:
                seen.add(z)
                init, step, lid = E.loopinfo[z]
                todo += [u for u in (init, step, E.lsrc.get(lid)) if u is not None]
    return False


def tasks(c, E):
    col, nt = proj(sym("msg"), ("column",)), proj(SELF, ("n_threads",))
    ss = sends(E, "EstimatorTask")
    if not c.ob("tasks", "sent", len(ss) >= 1 and all(len(e.loops) <= 1 for e in ss), "no tasks are sent"):
        return
    fin = self_final(E)
    bad = None
    for n in (1, 2, 3, 5, 7):
        for k in (1, 2, 3, 4):
            C = Cells(E, {nt: const(k)}, {col: (n, 1)})
            got, cnt = [], 0
            try:
                for e in ss:
                    src = e.loops[0] if e.loops else None
                    for t in range(C.length(src) if src is not None else 1):
                        D = C.turn(src, t) if src is not None else C
                        if not D.truth(no_panic(e.cond)):
                            continue
                        r = proj(e.args[1], ("data_range",))
                        cnt += 1
                        got.append((D.num(proj(r, ("start",))), D.num(proj(r, ("end",)))))
                pts = sorted(i for a, z in got for i in range(a, z))
                if pts != list(range(n)) or any(a > z or z > n for a, z in got):
                    bad = bad or "%d crossings, %d threads: tasks %s" % (n, k, got)
                tot = C.num(restrict_deep(proj(fin, ("helper_protocol", "n_total")), 1))
                if tot != cnt:
                    bad = bad or "%d crossings, %d threads: %d tasks are sent but %s answers are awaited" % (n, k, cnt, tot)
            except Unknown as u:
                bad = bad or "not understood: %s" % u
    c.ob("tasks", "every crossing once", bad is None, "the tasks must cover every crossing exactly once and all be awaited: %s" % bad, where_of(ss[0]))
    rec = proj(fin, ("helper_protocol", "n_received"))
    c.ob("tasks", "fresh count", rec is const(0), "the number of received answers must start at 0 for every dimension, it is %s" % show(rec, 4))
    es = proj(fin, ("estimate",))
    c.ob("tasks", "fresh estimate", es.op == "adt" and es.a[1] == "None", "the estimate of the last dimension must be gone: %s" % show(es, 3))
    st = [e for e in E.events if e.kind == "call" and e.name == "start" and "SyncArbiter" in e.fn]
    if c.ob("tasks", "helpers", len(st) == 1, "helpers must be started once per dimension"):
        pool = mk("call", st[0].fn, *st[0].args)
        for e in ss:
            c.ob("tasks", "to the helpers", e.args[0] is pool and st[0].idx < e.idx, "tasks go to %s" % show(e.args[0], 3)[:100], where_of(e))
        c.ob("tasks", "threads", st[0].args[0] is nt, "helpers: %s" % show(st[0].args[0], 3), where_of(st[0]))
        v = helper_value(c, E, st[0])
        if c.ob("helper data", "built", v is not None, "what the helpers are made of is unknown", where_of(st[0])):
            me = proj(v, ("receiver",))
            c.ob("helper data", "answers here", is_call(me, "recipient") and is_call(me.a[1], "address"), "helpers answer to %s" % show(me, 3), where_of(st[0]))
            kernel(c, E, v, col, st[0])
            bad = None
            for n in (2, 3):
                C = Cells(E, {}, {col: (n, 1)})
                try:
                    d, w = proj(v, ("data",)), proj(v, ("weights",))
                    for i in range(n):
                        if C.at(d, (i, 0)) is not mk("cell", col, const(i), const(0)):
                            bad = bad or "value %d is %s" % (i, show(C.at(d, (i, 0)), 4))
                        wv = C.value(C.at(w, (i, 0)))
                        if wv is None or wv * n != 1:
                            bad = bad or "weight %d of %d is %s" % (i, n, wv)
                except Unknown as u:
                    bad = bad or "not understood: %s" % u
            c.ob("helper data", "all crossings, equal weights", bad is None, "helpers must see all values of the dimension with equal weight: %s" % bad, where_of(st[0]))


def kernel(c, E, v, col, e):
    """width of the kernels: Scott's rule, the same for crossings and grid"""
    bad = None
    res = proj(SELF, ("resolution",))
    for X in COLS:
        n = len(X)
        mu = sum(X) / n
        var = sum((x - mu) ** 2 for x in X) / (n - 1)
        w = math.sqrt(1 / var) * n ** .2
        lo, hi = min(X), max(X)
        try:
            G = Geo(E, {col: [[x] for x in X], res: 7})
            wh, gr, no = (G(proj(v, (k,))) for k in ("whitening_factors", "grid", "norm"))
            li = [x for x in E.events if x.kind == "call" and x.name == "linspace"]
            pts = [float(x) for x in G(mk("call", li[0].fn, *li[0].args))]
            wh, no, gr = float(wh[0][0]), float(no), [float(x[0]) for x in gr]
        except (Unknown, IndexError, TypeError, KeyError) as u:
            c.assume.append("the width of the kernels could not be evaluated: %s" % u)
            return
        near = lambda a, b: abs(a - b) <= 1e-5 * max(1, abs(b))
        if not near(wh, w):
            bad = bad or "for crossings at %s the values are scaled by %.5f instead of %.5f" % (X, wh, w)
        elif not near(no, w / math.sqrt(2 * math.pi)):
            bad = bad or "for crossings at %s the kernels are scaled by %.5f instead of %.5f" % (X, no, w / math.sqrt(2 * math.pi))
        elif len(gr) != len(pts) or not all(near(a, b * w) for a, b in zip(gr, pts)):
            bad = bad or "for crossings at %s the scaled grid is %s instead of %s" % (X, [round(x, 3) for x in gr], [round(x * w, 3) for x in pts])
    c.ob("helper data", "kernel width", bad is None, "kernels must have the width of Scott's rule (variance times n to the power of -2/5), for crossings and grid alike: %s" % bad, where_of(e))


def answers(c):
    b = body_of(c, GK, "EstimatorResponse")
    if not b:
        return
    E = c.run(b)
    HP = ("helper_protocol",)
    nr, ntot = proj(SELF, HP + ("n_received",)), proj(SELF, HP + ("n_total",))
    est, me = proj(SELF, ("estimate",)), proj(sym("msg"), ("estimate",))
    fin = self_final(E)
    rec = proj(fin, HP + ("n_received",))
    c.ob("sum", "counted", rec is add(nr, const(1)), "each answer must be counted once: %s" % show(rec, 4))
    ss = sends(E, "GaussianKDEResponse")
    tot = 0
    for e in ss:
        tot = bor(tot, no_panic(e.cond))
    # awaited answers come one by one: done exactly at the last one
    bad = None
    for n in range(1, 5):
        for r in range(n):
            v = tab.value(subst(boolt(tot), {nr: const(r), ntot: const(n)}), {})
            if v is None or bool(v) != (r + 1 == n):
                bad = bad or "answer %d of %d: done = %s" % (r + 1, n, v)
    c.ob("sum", "after the last answer", ss and bad is None and all(not e.loops for e in ss), "the density must be handed on exactly when all tasks are answered: %s" % bad, where_of(ss[0]) if ss else None)
    has = bvar(mk("is", est, "Some"))
    for e in ss:
        k = restrict_deep(proj(e.args[1], ("kernel_estimate",)), e.cond)
        a, z = restrict_deep(k, has), restrict_deep(k, bnot(has))
        c.ob("sum", "complete", same_sum(a, proj(est, ("Some.0",)), me) and z is me, "the density must be the sum of all answers; it is %s, first %s" % (show(a, 4)[:100], show(z, 4)[:100]), where_of(e))
        c.ob("sum", "to the clustering", e.args[0] is proj(SELF, ("receiver", "Some.0")), "the density goes to %s" % show(e.args[0], 3), where_of(e))
    more = bnot(tot)
    f = restrict_deep(proj(fin, ("estimate", "Some.0")), more)
    a, z = restrict_deep(f, has), restrict_deep(f, bnot(has))
    c.ob("sum", "kept", same_sum(a, proj(est, ("Some.0",)), me) and z is me, "the partial sum must be kept: %s, first %s" % (show(a, 4)[:100], show(z, 4)[:100]))


def same_sum(t, a, b):
    return t is add(a, b)


def helper(c):
    b = body_of(c, EH, "EstimatorTask")
    if not b:
        return
    E = c.run(b)
    ss = sends(E, "EstimatorResponse")
    if not c.ob("estimate", "answered once", len(ss) == 1 and not ss[0].loops and no_panic(ss[0].cond) == 1, "each task must be answered exactly once"):
        return
    c.ob("estimate", "to the estimator", ss[0].args[0] is proj(SELF, ("receiver",)), "the answer goes to %s" % show(ss[0].args[0], 3), where_of(ss[0]))
    v = proj(ss[0].args[1], ("estimate",))
    r = proj(sym("msg"), ("data_range",))
    dat, gr, wh, we = (proj(SELF, (k,)) for k in ("data", "grid", "whitening_factors", "weights"))
    norm = proj(SELF, ("norm",))
    bad = None
    for lo, hi in ((0, 2), (1, 3), (2, 2)):
        C = Cells(E, {proj(r, ("start",)): const(lo), proj(r, ("end",)): const(hi)}, {dat: (4, 1), gr: (2, 1), wh: (1, 1), we: (4, 1), norm: ()})
        try:
            if C.shape(v) != (2,):
                bad = bad or "its shape is %s" % (C.shape(v),)
                continue
            for j in range(2):
                got = C.at(v, (j,))
                want = const(0)
                cell = lambda A, *k: mk("cell", A, *[const(x) for x in k])
                for i in range(lo, hi):
                    d = sub(mul(cell(dat, i, 0), cell(wh, 0, 0)), cell(gr, j, 0))
                    want = add(want, mul(mul(cell(we, i, 0), mk("call", "exp", mul(mul(d, d), const(Fraction(-1, 2))))), mk("cell", norm)))
                if got is not want:
                    bad = bad or "for crossings %d..%d, point %d of the grid gets %s" % (lo, hi, j, show(got, 7)[:250])
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    c.ob("estimate", "every crossing of the task", bad is None, "at each point of the grid the kernels of the task's crossings are summed, each with its own weight: %s" % bad, where_of(ss[0]))

