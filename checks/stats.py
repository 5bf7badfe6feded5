"""P16 statistics of the whole dataset from the contributions of the nodes."""
from input import *
from fractions import Fraction

DM = "DataManager"


def nd_slice(t):
    """(array, [range per axis]) of an ndarray slice"""
    t = soft(t)
    if is_call(t, ("slice", "slice_move", "slice_mut")) and len(t.a) == 3:
        s = t.a[2]
        arr = [x for x in subterms(s) if x.op == "array"]
        if s.op == "array":
            arr = [s]
        elif is_call(s, "new_unchecked") and s.a[1].op == "array":
            arr = [s.a[1]]
        if arr:
            return soft(t.a[1]), list(arr[0].a)
    return None


def rng(r, size):
    """(start, end) of a range over an axis of the given size"""
    if r.op == "adt":
        k = r.a[0].split("::")[-1]
        d = dict(r.a[2])
        if k == "RangeFull":
            return const(0), size
        if k == "Range":
            return d["start"], d["end"]
        if k == "RangeTo":
            return const(0), d["end"]
        if k == "RangeFrom":
            return d["start"], size
    return None


ROWS = ("nrows",)


def dim(t, ax):
    """size of an array along an axis, as a term over the sizes of the arrays it is taken from"""
    t = soft(t)
    s = nd_slice(t)
    if s:
        r = rng(s[1][ax], dim(s[0], ax)) if ax < len(s[1]) else None
        if r:
            return sub(r[1], r[0])
    if is_call(t, ("to_owned", "to_shared", "view", "into_shared", "into_owned")) and len(t.a) == 2:
        return dim(t.a[1], ax)
    return mk("dim", t, const(ax))


def norm_dims(t):
    """nrows/ncols/len_of/shape()[i] in terms of dim"""
    for _ in range(8):
        m = {}
        for x in subterms(t):
            if is_call(x, "nrows") and len(x.a) == 2:
                m[x] = dim(x.a[1], 0)
            elif is_call(x, "ncols") and len(x.a) == 2:
                m[x] = dim(x.a[1], 1)
            elif is_call(x, "len_of") and len(x.a) == 3 and axis(x.a[2]) is not None:
                m[x] = dim(x.a[1], axis(x.a[2]))
            elif x.op in ("index", "ix") and len(x.a) == 2 and is_call(x.a[0], ("shape", "dim", "raw_dim")) and x.a[1].op == "num":
                m[x] = dim(x.a[0].a[1], int(x.a[1].a[0]))
            elif x.op == "field" and is_call(x.a[0], "dim") and str(x.a[1]).isdigit():
                m[x] = dim(x.a[0].a[1], int(x.a[1]))
        if not m:
            return t
        t = subst(t, m)
    return t


def axis(t):
    if t.op == "adt" and t.a[0].endswith("Axis"):
        v = dict(t.a[2]).get("0")
        if v is not None and v.op == "num":
            return int(v.a[0])
    if t.op == "call" and t.a[0].split("::")[-1] == "Axis" and t.a[1].op == "num":
        return int(t.a[1].a[0])
    return None


def numval(t, env):
    return tab.value(t, env)


def extremum(c, which):
    """the local helpers min_axis/max_axis: smallest/largest value of every column"""
    nm = which + "_axis"
    b = [b for b in c.p.bodies.values() if b.get("name") == nm and b["kind"] != "Closure" and "promoted" not in b["key"] and b.get("blocks")]
    if not b:
        return
    E = c.run(b[0])
    ok1 = False
    why = "its loop is not understood"
    for lv, (init, step, lid) in E.loopinfo.items():
        if step is None or lid not in E.lsrc:
            continue
        src = E.lsrc[lid]
        e = elem(src)
        if not is_call(soft(src), ("index_axis", "column", "lane", "index_axis_move")):
            continue
        w = cmp("lt", e, lv, "f32") if which == "min" else cmp("lt", lv, e, "f32")
        w2 = cmp("le", e, lv, "f32") if which == "min" else cmp("le", lv, e, "f32")
        startv = {"min": ("max_value", "infinity", "INFINITY", "MAX"), "max": ("min_value", "neg_infinity", "NEG_INFINITY", "MIN")}[which]
        oks = is_call(init, startv) or any(k in show(init, 3) for k in startv if which == "max" or "NEG" not in show(init, 3) and "min" not in show(init, 3))
        okv = step in (ite(w, e, lv), ite(w2, e, lv)) or minmax_of(which, step, lv, e)
        wr = [x for x in E.events if x.kind == "write" and x.extra and x.extra[2] is lv and len(x.loops) == 1]
        ok1 = oks and okv and len(wr) == 1
        why = "start %s, step %s" % (show(init, 3), show(step, 5))
        if ok1:
            break
    for x in E.events:
        if ok1 or x.kind != "write" or not x.extra or x.extra[2].op != "fold" or len(x.loops) != 1:
            continue
        src, init, r, acc = x.extra[2].a
        e = elem(src)
        w, w2 = (cmp(o, e, acc, "f32") if which == "min" else cmp(o, acc, e, "f32") for o in ("lt", "le"))
        oks = is_call(init, {"min": ("max_value", "infinity"), "max": ("min_value", "neg_infinity")}[which])
        ok1 = oks and is_call(soft(src), ("index_axis", "column", "lane", "index_axis_move")) and (r in (ite(w, e, acc), ite(w2, e, acc)) or minmax_of(which, r, acc, e))
        why = "start %s, step %s" % (show(init, 3), show(r, 5))
    c.ob("extremum", nm, ok1, "%s must give the %s of each column: %s" % (nm, {"min": "smallest", "max": "largest"}[which], why))


def minmax_of(which, t, a, b):
    return (is_call(t, which) and len(t.a) == 3 and set(t.a[1:]) == {a, b}) or (t.op == which and set(t.a) == {a, b})


def all_some(st, fs):
    r = 1
    for f in fs:
        r = band(r, is_variant(proj(st, (f,)), "Some"))
    return r


def none_some(st, fs):
    r = 1
    for f in fs:
        r = band(r, bnot(is_variant(proj(st, (f,)), "Some")))
    return r


def sends_of(E, M):
    return [e for e in E.events if e.kind == "call" and e.name in ("do_send", "try_send", "send") and base(e.gargs[-1]) == M]


def lens_env(ts, lst, pushed, k):
    """lengths of the list before and after the new entry"""
    env = {}
    for t in ts:
        for x in subterms(t):
            if is_call(x, "len") and len(x.a) == 2:
                if x.a[1] is lst:
                    env[x] = const(k)
                elif x.a[1] is pushed:
                    env[x] = const(k + 1)
    return env


def collected(c, E, st, fin, M, what):
    """every contribution is noted, and the result goes to each contributor once all are in"""
    src = proj(sym("msg"), ("source",))
    nodes = proj(st, ("nodes",))
    nf = proj(fin, ("nodes",))
    c.ob("contributors", what, flat(nf) == [("all", nodes), ("one", src)], "each contributing node must be noted once; the list becomes %s" % show(nf, 4))
    ss = sends_of(E, M)
    if not c.ob("result", what + ": sent at one place", len(ss) == 1, "%s is sent at %d places" % (M, len(ss))):
        return None
    e = ss[0]
    okl = len(e.loops) == 1 and flat(e.loops[0]) == [("all", nodes), ("one", src)]
    c.ob("result", what + ": to every contributor", okl, "%s must go to every node that contributed; it goes over %s" % (M, [show(l, 5) for l in e.loops]), where_of(e))
    if okl:
        x = elem(e.loops[0])
        has = is_variant(proj(x, ("node", "network_interface")), "Some")
        r, l = restrict(e.args[0], has), restrict(e.args[0], bnot(has))
        okk = r.op == "adt" and r.a[1] == "Remote" and proj(r, ("0",)) is x and l.op == "adt" and l.a[1] == "Local" and is_call(proj(l, ("0",)), "address")
        c.ob("result", what + ": receiver", okk, "the result must go to the contributor itself, over its connection or locally; it goes to %s" % show(e.args[0], 5), where_of(e))
    N = proj(SELF, ("parameters", "n_cluster_nodes"))
    bad = None
    cd = boolt(bexists(e.cond, lambda a: a.op == "is" or a.op == "exists" or contains(a, lambda z: is_call(z, "max_level"))))
    for n in range(1, 6):
        for k in range(0, n):
            env = lens_env([cd], nodes, nf, k)
            env[N] = const(n)
            v = numval(cd, env)
            if v is None or v != (k + 1 == n):
                bad = bad or "after %d of %d contributions it is %ssent" % (k + 1, n, "" if v else "not ")
    c.ob("result", what + ": when complete", bad is None, "%s must be sent when the contributions of all nodes are in: %s" % (M, bad), where_of(e))
    return e, nodes, nf


def std_merge(c):
    b = c.need(c.p.handler(DM, "StdNodeMessage"), "handler of StdNodeMessage")
    if not b:
        return
    E = c.run(b, opaque_other(b), "inp")
    st = proj(proj(SELF, ("std_calculation",)), ("Some.0",))
    fin = proj(proj(self_final(E), ("std_calculation",)), ("Some.0",))
    r = collected(c, E, st, fin, "StdDoneMessage", "standard deviation")
    if not r:
        return
    e, nodes, nf = r
    N = proj(SELF, ("parameters", "n_cluster_nodes"))
    msg = sym("msg")
    full, empty = all_some(st, ("n", "mean", "m2")), none_some(st, ("n", "mean", "m2"))
    acc = {f: proj(st, (f, "Some.0")) for f in ("n", "mean", "m2")}
    got = {f: proj(msg, (f,)) for f in ("n", "mean", "m2")}
    grid = [(na, nb, ma, mb, va, vb) for na in (1, 3, 4) for nb in (2, 5) for ma in (-2, 3) for mb in (1, 7) for va in (0, 6) for vb in (2,)]

    def wanted(f, na, nb, ma, mb, va, vb):
        if f == "n":
            return Fraction(na + nb)
        if f == "mean":
            return Fraction(ma * na + mb * nb, na + nb)
        return Fraction(va + vb) + Fraction((mb - ma) ** 2 * na * nb, na + nb)

    def env_of(p, k, n, ts):
        na, nb, ma, mb, va, vb = p
        env = {acc["n"]: const(na), got["n"]: const(nb), acc["mean"]: const(ma), got["mean"]: const(mb), acc["m2"]: const(va), got["m2"]: const(vb), N: const(n)}
        env.update(lens_env(ts, nodes, nf, k))
        return env
    # not the first contribution, more to come
    for f in ("n", "mean", "m2"):
        t = proj(restrict(proj(fin, (f,)), full), ("Some.0",))
        bad = None
        for p in grid:
            v = numval(t, env_of(p, 1, 4, [t]))
            w = wanted(f, *p)
            if v is None or Fraction(v) != w:
                bad = bad or "with n=%d,%d mean=%d,%d m2=%d,%d it becomes %s instead of %s" % (p[0], p[1], p[2], p[3], p[4], p[5], v, w)
        c.ob("combined", f, bad is None, "%s of two parts: %s" % (f, bad))
        t = restrict(proj(fin, (f,)), empty)
        v = proj(choose(t, 0, 3, nodes, nf, N), ("Some.0",))
        c.ob("combined", "first " + f, v is got[f], "the first contribution must be taken as it is; %s becomes %s" % (f, show(v, 4)))
    # result
    for nm, cd, first in (("last of several", full, False), ("only one", empty, True)):
        pay = restrict(e.args[1], cd)
        s = proj(pay, ("std",))
        nn = proj(pay, ("n",))
        if s.op == "ite":
            s = choose(s, 0 if first else 2, 1 if first else 3, nodes, nf, N)
        if nn.op == "ite":
            nn = choose(nn, 0 if first else 2, 1 if first else 3, nodes, nf, N)
        var = elementwise(s, "sqrt")
        if not c.ob("result", "root, " + nm, var is not None, "the standard deviation must be the root of the variance of each column; it is %s" % show(s, 5), where_of(e)):
            continue
        bad = None
        for p in grid:
            env = env_of(p, 0 if first else 2, 1 if first else 3, [var, nn])
            v, vn = numval(var, env), numval(nn, env)
            if first:
                w, wn = Fraction(p[5], p[1] - 1), Fraction(p[1])
            else:
                w, wn = wanted("m2", *p) / (p[0] + p[1] - 1), wanted("n", *p)
            if v is None or Fraction(v) != w:
                bad = bad or "variance %s instead of %s" % (v, w)
            if vn is None or Fraction(vn) != wn:
                bad = bad or "number of rows %s instead of %s" % (vn, wn)
        c.ob("result", "variance, " + nm, bad is None, "sum of squared deviations over n - 1, and the number of rows: %s" % bad, where_of(e))


def choose(t, k, n, nodes, nf, N):
    """decide remaining conditions for k contributions noted before, n nodes"""
    for _ in range(6):
        if t.op != "ite":
            break
        cd = boolt(t.a[0])
        env = lens_env([cd], nodes, nf, k)
        env[N] = const(n)
        v = numval(cd, env)
        if v is None:
            break
        t = t.a[1] if v else t.a[2]
    return t


def elementwise(t, fn):
    """argument X where t = fn applied to every element of X"""
    t = bare(t)
    if t.op == "seq" and asb(t.a[2]) == 1 and is_call(t.a[1], fn) and t.a[1].a[1] is elem(t.a[0]):
        return soft(t.a[0])
    if is_call(t, fn) and len(t.a) == 2:
        return t.a[1]
    return None


def minmax_merge(c):
    b = c.need(c.p.handler(DM, "MinMaxNodeMessage"), "handler of MinMaxNodeMessage")
    if not b:
        return
    E = c.run(b, opaque_other(b), "inp")
    st = proj(proj(SELF, ("minmax_calculation",)), ("Some.0",))
    fin = proj(proj(self_final(E), ("minmax_calculation",)), ("Some.0",))
    r = collected(c, E, st, fin, "MinMaxDoneMessage", "range")
    full, empty = all_some(st, ("min", "max")), none_some(st, ("min", "max"))
    for f in ("min", "max"):
        a, m = proj(st, (f, "Some.0")), proj(sym("msg"), (f,))
        t = proj(restrict(proj(fin, (f,)), full), ("Some.0",))
        c.ob("combined", f, is_pointwise(t, f, a, m), "the %s of two parts must be taken value by value; it is %s" % (f, show(t, 6)))
        t = proj(restrict(proj(fin, (f,)), empty), ("Some.0",))
        c.ob("combined", "first " + f, t is m, "the first contribution must be taken as it is; %s becomes %s" % (f, show(t, 4)))
        if r:
            e = r[0]
            for nm, cd in (("last of several", full), ("only one", empty)):
                s = restrict(proj(e.args[1], (f,)), cd)
                w = proj(restrict(proj(fin, (f,)), cd), ("Some.0",))
                c.ob("result", "%s, %s" % (f, nm), s is w, "the %s sent must be the combined one; it is %s" % (f, show(s, 5)), where_of(e))


def bare(t):
    """without the container it is collected into"""
    while t.op == "collect" or is_call(t, ("from_vec", "from_iter", "from", "into")) and len(t.a) in (2, 3):
        t = t.a[0] if t.op == "collect" else t.a[1]
    return t


def mapped(t):
    """an element-wise map over an array, written as the same formula over the array"""
    while is_call(t, ("to_owned", "view")):
        t = t.a[1]
    b = bare(t)
    if b.op == "seq" and asb(b.a[2]) == 1:
        return subst(b.a[1], {elem(b.a[0]): mapped(soft(b.a[0]))})
    return t


def is_pointwise(t, f, a, m):
    t = bare(t)
    if t.op != "seq" or asb(t.a[2]) != 1 or t.a[0].op != "zip":
        return False
    x, y = t.a[0].a
    if {soft(x), soft(y)} != {a, m}:
        return False
    u, v = elem(x), elem(y)
    w = t.a[1]
    if is_call(w, f) and {w.a[1], w.a[2]} == {u, v} or w.op == f and set(w.a) == {u, v}:
        return True
    lo = {"min": (u, v), "max": (v, u)}[f]
    for op in ("lt", "le"):
        if w is ite(cmp(op, lo[0], lo[1], "f32"), u, v) or w is ite(cmp(op, lo[1], lo[0], "f32"), v, u):
            return True
    return False


def local_part(c, cl):
    b = c.p.handler(DM, "LocalReadDataMessage")
    if not c.need(b, "handler of LocalReadDataMessage"):
        return
    ext = lambda x: x.get("name") in ("min_axis", "max_axis") or x.get("trait") == "actix::Handler" and x is not b
    E = c.run(b, ext, "stats")
    data = proj(sym("msg"), ("data",))
    for M in ("MinMaxNodeMessage", "StdNodeMessage"):
        ss = sends_of(E, M)
        if not c.ob("contribution", M, len(ss) == 1 and not ss[0].loops, "%s is sent at %d places" % (M, len(ss))):
            continue
        e = ss[0]
        c.ob("contribution", M + " always", no_panic(e.cond) == 1 or all(a.op == "is" for a in bsupport(e.cond)) and bexists(e.cond, lambda a: is_call(a.a[0], ("mean_axis", "broadcast"))) == 1, "%s is sent only under %s" % (M, showb(e.cond)[:150]), where_of(e))
        g = mk("call", "std::collections::HashMap::get", cl.nodes, const(0))
        has = is_variant(g, "Some")
        r, l = restrict(e.args[0], has), restrict(e.args[0], bnot(has))
        okk = r.op == "adt" and r.a[1] == "Remote" and contains(r, lambda z: z is proj(g, ("Some.0",))) and l.op == "adt" and l.a[1] == "Local" and is_call(proj(l, ("0",)), "address")
        c.ob("contribution", M + " to the main node", okk, "the contribution must go to node 0; it goes to %s" % show(e.args[0], 5), where_of(e))
        if M == "MinMaxNodeMessage":
            for f in ("min", "max"):
                v = proj(e.args[1], (f,))
                okv = is_call(v, f + "_axis") and strip_view(v.a[1]) is data and axis(v.a[2]) == 0
                if is_call(v, "fold_axis") or v.op == "fold":
                    okv = False
                c.ob("contribution", f, okv, "%s must be the %s of each column of all rows of this node; it is %s" % (f, f, show(v, 5)), where_of(e))
            continue
        n, mean, m2 = (norm_dims(proj(e.args[1], (f,))) for f in ("n", "mean", "m2"))
        ms = [x for x in subterms(mean) if is_call(x, "mean_axis")]
        okm = len(ms) == 1 and axis(ms[0].a[2]) == 0 and strip_payload(mean) is ms[0]
        if not c.ob("contribution", "mean", okm, "the mean of each column must be sent; it is %s" % show(mean, 5), where_of(e)):
            continue
        S = ms[0].a[1]
        sl = nd_slice(S)
        if not c.ob("contribution", "rows", sl is not None and strip_view(sl[0]) is data and len(sl[1]) == 2 and rng(sl[1][1], sym("ALL")) == (const(0), sym("ALL")), "the rows of this node must be used with all columns; used is %s" % show(S, 5), where_of(e)):
            continue
        R = dim(data, 0)
        lo, hi = rng(norm_dims(sl[1][0]) if True else sl[1][0], R)
        hi = norm_dims(hi)
        pl = proj(SELF, ("parameters", "pattern_length"))
        pts = []
        for nn in range(1, 6):
            for own in range(nn):
                for p in (2, 4):
                    for rr in (9, 20):
                        pts.append(({sym("own"): const(own), sym("n"): const(nn), pl: const(p), R: const(rr)}, rr if own == nn - 1 else rr - (p - 1)))
        c.ob("contribution", "first row", lo is const(0), "the rows of this node start at %s" % show(lo, 4), where_of(e))
        bad = tab.same_function(own_as(cl, hi), None, pts)
        c.ob("contribution", "no row counted twice", bad is None, "the overlap with the next node must be left out (and nothing else): last row %s" % bad, where_of(e))
        bad = tab.same_function(own_as(cl, sub(n, sub(hi, lo))), None, [(en, 0) for en, _ in pts])
        c.ob("contribution", "number of rows", bad is None, "n must be the number of rows used: %s" % bad, where_of(e))
        # m2 = sum over rows of (x - mean)^2
        okq = False
        if is_call(m2, ("sum_axis", "sum")) and (len(m2.a) < 3 or axis(m2.a[2]) == 0):
            q = mapped(m2.a[1])
            mt = strip_payload(mean)
            env = {}
            for x in subterms(q):
                y = strip_payload(x)
                if x is S:
                    env[x] = const(11)
                elif x is mean or x is mt or is_call(y, "broadcast") and y.a[1] in (mean, mt) and y is not x:
                    env[x] = const(4)
            vals = set()
            for k in (2, 3, 7):
                ev = dict(env)
                for x in subterms(q):
                    if x.op == "tofloat" and norm_dims(x.a[0]) is n:
                        ev[x] = const(k)
                vals.add(numval(subst(q, ev), {}))
            okq = vals == {49}
        elif is_call(m2, ("var_axis",)):
            okq = False
        c.ob("contribution", "squared deviations", okq, "m2 must be the sum of squared deviations from the mean per column; it is %s" % show(m2, 5)[:300], where_of(e))


def strip_view(t):
    t = soft(t)
    while is_call(t, ("to_shared", "to_owned", "view", "into_shared")) and len(t.a) == 2:
        t = soft(t.a[1])
    return t


def strip_payload(t):
    while t.op == "field" and t.a[1] in ("Some.0", "Ok.0"):
        t = t.a[0]
    return t


def done(c):
    ds = proj(SELF, ("dataset_stats",))
    rows = (("StdDoneMessage", {"std_col": "std", "n": "n"}, ("min_col", "max_col")), ("MinMaxDoneMessage", {"min_col": "min", "max_col": "max"}, ("std_col",)))
    for M, put, others in rows:
        b = c.p.handler(DM, M)
        if not c.need(b, "handler of " + M):
            continue
        E = c.run(b, opaque_other(b), "inp")
        fin = proj(self_final(E), ("dataset_stats",))
        for f, g in put.items():
            v = proj(fin, (f,))
            c.ob("taken over", "%s of %s" % (f, M), v is some(proj(sym("msg"), (g,))), "%s must become the %s of the message; it becomes %s" % (f, g, show(v, 4)))
        keep = [f for f in ("min_col", "max_col", "std_col", "n") if f not in put]
        c.ob("taken over", "rest kept by " + M, all(proj(fin, (f,)) is proj(ds, (f,)) for f in keep), "%s changes other statistics" % M)
        want = all_some(ds, others)
        pre = proj(self_final(E), ("preprocessing",))
        old = proj(SELF, ("preprocessing",))
        hasdata = is_variant(proj(SELF, ("data",)), "Some")
        w = band(want, hasdata)
        went = changed_when(pre, old)
        c.ob("next step", M, band(went, hasdata) == w or went == want, "preprocessing must start as soon as range and deviation are known, not before; it starts under %s" % showb(went)[:200])


def changed_when(t, old):
    if t is old:
        return 0
    if t.op == "ite":
        return bite(t.a[0], changed_when(t.a[1], old), changed_when(t.a[2], old))
    return 1


def p16(c):
    cl = Cluster(c)
    local_part(c, cl)
    for w in ("min", "max"):
        extremum(c, w)
    std_merge(c)
    minmax_merge(c)
    done(c)
    c.assume.append("arithmetic is read over the rationals; rounding is out of scope")
