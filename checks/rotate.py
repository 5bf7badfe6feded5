"""P19 projection and rotation: from the components to the rotated points."""
import math
from pca import *
from cluster import Cluster
import cells


def fval(t, env):
    """the extracted arithmetic at given cell values"""
    if t.op == "num":
        return float(t.a[0])
    if t in env:
        return env[t]
    if t.op == "index" and t.a[1].op == "num":
        a = t.a[0]
        while a.op == "call" and a.a[0].split("::")[-1] in ("arr1", "from_vec", "to_vec", "to_owned", "view") and len(a.a) == 2:
            a = a.a[1]
        if a.op == "array":
            return fval(a.a[int(t.a[1].a[0])], env)
    if t.op == "poly":
        s = 0.0
        for mono, co in t.a[0]:
            p = float(co)
            for x in mono:
                p *= fval(x, env)
            s += p
        return s
    if t.op == "fdiv":
        return fval(t.a[0], env) / fval(t.a[1], env)
    if t.op == "mulop":
        return fval(t.a[0], env) * fval(t.a[1], env)
    if t.op == "norm":
        return math.sqrt(sum(fval(x, env) ** 2 for x in t.a))
    if t.op == "call":
        n = t.a[0].split("::")[-1]
        v = [fval(x, env) for x in t.a[1:]]
        if n in ("sqrt", "abs", "exp", "cos", "sin"):
            return abs(v[0]) if n == "abs" else getattr(math, n)(v[0])
        if n in ("powi", "powf"):
            return v[0] ** v[1]
        if n == "neg":
            return -v[0]
        if n in ("floor", "ceil", "trunc"):
            return float(getattr(math, n)(v[0]))
        if n == "rem_euclid":
            return v[0] % v[1]
        if n == "atan2":
            return math.atan2(v[0], v[1])
        if n == "hypot":
            return math.hypot(v[0], v[1])
        if n == "recip":
            return 1 / v[0]
    if t.op in env.get("ops", ()):
        return env["ops"][t.op](*[fval(x, env) for x in t.a if isinstance(x, T)])
    if t.op in ("tofloat", "cast") and isinstance(t.a[0], T):
        return fval(t.a[0], env)
    if t.op == "toint":
        return float(math.trunc(fval(t.a[0], env)))
    if t.op in ("mod", "modf", "fmod"):
        a, b = fval(t.a[0], env), fval(t.a[1], env)
        return math.fmod(a, b) if t.op != "modf" else a % b
    if t.op == "idiv":
        return float(int(fval(t.a[0], env) // fval(t.a[1], env)))
    if t.op == "idivt":
        return float(math.trunc(fval(t.a[0], env) / fval(t.a[1], env)))
    if t.op == "ite":
        return fval(t.a[1] if fcond(t.a[0], env) else t.a[2], env)
    raise Unknown("arithmetic " + show(t, 3))


def fcond(b, env):
    """truth of a condition over arithmetic"""
    s = bsupport(b)
    for a in s:
        x = a if isinstance(a, T) else None
        v = fatom(x, env)
        b = asb(restrict(boolt(b), asb(x) if v else bnot(asb(x))))
    if b not in (0, 1):
        raise Unknown("condition " + showb(b)[:100])
    return b == 1


def fatom(x, env):
    if x.op in ("lt0", "le0", "eq0", "lt", "le", "eq"):
        v = [fval(y, env) for y in x.a if isinstance(y, T)]
        w = v[1] if len(v) > 1 else 0.0
        return {"lt": v[0] < w, "le": v[0] <= w, "eq": v[0] == w}[x.op[:2]]
    raise Unknown("condition " + show(x, 3))


def role_facts():
    r = proj(SELF, ("parameters", "role"))
    m, s = is_variant(r, "Main"), is_variant(r, "Sub")
    return bor(band(m, bnot(s)), band(s, bnot(m)))


def same_under(a, b, facts):
    return band(a, facts) == band(b, facts)


def to_everyone(c, cl, area, inst, es, cond, facts=1):
    """one message to each cluster node, this one included, on exactly the paths of cond"""
    kinds = {}
    for e in es:
        k = cl.target(e.args[0])
        kinds.setdefault(k[0], []).append((e, k))
    ok = False
    if set(kinds) == {"each-any"}:
        ok = all(len(e.loops) == 1 for e, _ in kinds["each-any"])
        got, dis = union([no_panic(e.cond) for e, _ in kinds["each-any"]])
        ok = ok and dis and same_under(got, cond, facts)
    elif set(kinds) == {"each-peer", "self"}:
        ok = True
        for kd in kinds:
            got, dis = union([no_panic(e.cond) for e, _ in kinds[kd]])
            ok = ok and dis and same_under(got, cond, facts) and all(len(e.loops) == (1 if kd == "each-peer" else 0) for e, _ in kinds[kd])
    c.ob(area, inst, ok, "it must go once to every node, this one included, %s; it goes to %s" % ("always" if cond == 1 else "if " + showb(cond)[:150], [(k, [showb(no_panic(e.cond))[:100] for e, _ in v]) for k, v in kinds.items()]), where_of(es[0]) if es else None)
    return ok


ROT = ("rotation",)


def projection(c, E):
    """PCADone: the column that was analysed last is projected, nothing else changes"""
    fin = self_final(E)
    nred = proj(SELF, ROT + ("n_reduced",))
    comp, mean = proj(SELF, ROT + ("pca", "components", "Some.0")), proj(SELF, ROT + ("pca", "global_means", "Some.0"))
    n = 0
    for what, src in (("reduced", "phase_space"), ("reduced_ref", "data_ref")):
        out, inn = proj(SELF, ROT + (what, "Some.0")), proj(SELF, ROT + (src, "Some.0"))
        ps = proj(SELF, ROT + ("phase_space", "Some.0"))
        bad = None
        for rows, lags, cols, col in ((2, 4, 2, 0), (2, 3, 2, 1), (1, 4, 1, 0), (2, 5, 3, 1)):
            for r0 in (rows,):
                at = {out: (rows, 3, cols), inn: (rows, lags, cols), comp: (3, lags), mean: (lags,)}
                at.setdefault(ps, (7, lags, cols))
                C = Cells(E, {nred: const(col + 1)}, at)
                try:
                    v = proj(fin, ROT + (what, "Some.0"))
                    if C.shape(v) != (rows, 3, cols):
                        bad = bad or "its shape becomes %s" % (C.shape(v),)
                        continue
                    for i in range(rows):
                        for k in range(3):
                            for d in range(cols):
                                n += 1
                                got = C.at(v, (i, k, d))
                                want = mk("cell", out, const(i), const(k), const(d))
                                if d == col:
                                    want = const(0)
                                    for j in range(lags):
                                        want = add(want, mul(sub(mk("cell", inn, const(i), const(j), const(d)), mk("cell", mean, const(j))), mk("cell", comp, const(k), const(j))))
                                if got is not want:
                                    bad = bad or "after column %d of %d, entry (point %d, component %d, column %d) is %s" % (col, cols, i, k, d, show(got, 5)[:150])
                except Unknown as u:
                    bad = bad or "not understood: %s" % u
        c.ob("projection", what, bad is None, "%s of the column just analysed must be the centred %s times the components, the other columns must stay: %s" % (what, src, bad))
    return n


def columns(c, E, cl):
    """one column after the other, then the matrix"""
    fin = self_final(E)
    nred = proj(SELF, ROT + ("n_reduced",))
    ps = proj(SELF, ROT + ("phase_space", "Some.0"))
    # the decision, tabulated over the number of columns
    bf = proj(fin, ROT + ("broadcasted",))
    nf = proj(fin, ROT + ("n_reduced",))
    bad = badn = None
    for cols in (1, 2, 3, 4):
        for k in range(1, cols + 1):
            C = Cells(E, {nred: const(k)}, {ps: (5, 4, cols)})
            try:
                b = truth_of(C, bf)
                if b != (True if k == cols else None):
                    bad = bad or "with %d of %d columns done, it is %s" % (k, cols, b)
                v = C.value(nf)
                if v is None or int(v) != (k + 1 if k < cols else k):
                    badn = badn or "with %d of %d columns done, the number becomes %s" % (k, cols, v)
            except Unknown as u:
                bad = bad or "not understood: %s" % u
    c.ob("columns", "ready for the matrix", bad is None, "the matrix is awaited exactly after the last column: %s" % bad)
    c.ob("columns", "one after the other", badn is None, "as long as there are columns the next one is analysed: %s" % badn)


def truth_of(C, t):
    """True, False or None (unchanged)"""
    b = asb(t)
    fld = asb(proj(SELF, ROT + ("broadcasted",)))
    v = C.value(boolt(bcofactor(b, fld, True)))
    w = C.value(boolt(bcofactor(b, fld, False)))
    if v is None or w is None:
        raise Unknown(showb(b)[:150])
    return bool(v) if bool(v) == bool(w) else None


def bcofactor(b, v, pos_):
    return asb(restrict(boolt(b), v if pos_ else bnot(v)))


def check_matrix(c, E, t, ref):
    """the matrix turns the direction of the first reference point onto the third axis"""
    bad = badshape = None
    import random
    rnd = random.Random(7)
    n = 0
    for cols in (1, 2, 3):
        C = Cells(E, {}, {ref: (4, 3, cols)})
        try:
            sh = C.shape(t)
            if sh != (3, 3, cols):
                badshape = badshape or "for %d columns it is %s" % (cols, sh)
                continue
            envs = []
            for _ in range(5):
                envs.append({mk("cell", ref, const(r), const(k), const(d)): rnd.uniform(-3, 3) for r in range(4) for k in range(3) for d in range(cols)})
            for i in range(3):
                for j in range(3):
                    for d in range(cols):
                        n += 1
                        g = C.at(t, (i, j, d))
                        for env in envs:
                            a = [env[mk("cell", ref, const(0), const(k), const(d))] for k in range(3)]
                            nn = math.sqrt(sum(x * x for x in a))
                            a = [x / nn for x in a]
                            v = (a[1], -a[0], 0.0)
                            K = [[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]]
                            s2 = sum(x * x for x in v)
                            w = (1 if i == j else 0) + K[i][j] + sum(K[i][x] * K[x][j] for x in range(3)) * (1 - a[2]) / s2
                            x = fval(g, env)
                            if not math.isclose(x, w, rel_tol=1e-7, abs_tol=1e-7):
                                bad = bad or "entry (%d, %d) of column %d of %d is %s, which is not the entry of the turn" % (i, j, d, cols, show(g, 4)[:150])
        except (Unknown, KeyError, ZeroDivisionError, OverflowError) as u:
            bad = bad or "not understood: %s" % u
    c.ob("matrix", "shape", badshape is None, "one 3x3 matrix per column: %s" % badshape)
    c.ob("matrix", "turn", bad is None, "the matrix of a column must turn the first point of its reference onto the third axis: %s" % bad)
    return n


def points(c, cl):
    b = c.p.handler("Training", "RotationMatrixMessage")
    if not c.need(b, "handler of RotationMatrixMessage"):
        return
    E = c.run(b)
    ready = asb(proj(SELF, ROT + ("broadcasted",)))
    msg = sym("msg")
    fin = self_final(E)
    kept = restrict(proj(fin, ROT + ("rotation_matrix_buffer",)), bnot(ready))
    okk = kept.op == "adt" and kept.a[1] == "Some" and (proj(kept, ("Some.0",)) is msg or proj(kept, ("Some.0", "rotation_matrix")) is proj(msg, ("rotation_matrix",)))
    c.ob("early matrix", "kept", okk, "a matrix that arrives before the projection is done must be kept; the buffer holds %s" % show(kept, 4)[:150])
    dn = [e for e in E.events if is_send(e) and base(e.gargs[-1]) == "RotationDoneMessage"]
    got, dis = union([no_panic(e.cond) for e in dn])
    c.ob("points", "announced", dis and got == ready and all(not e.loops and cl.target(e.args[0])[0] == "self" for e in dn), "RotationDone is due exactly when the points are in place; it is sent if %s" % showb(got)[:150])
    place = ("data_store", "points")
    ad = [e for e in E.events if e.kind == "call" and e.name in ("push", "push_back") and place_of(e.raw[0])[1] == place]
    if not c.ob("points", "stored", len(ad) == 1 and len(ad[0].loops) == 1 and no_panic(ad[0].cond) == ready, "the rotated points must be stored once, with the matrix; stored at %d places" % len(ad)):
        return
    e = ad[0]
    if dn:
        c.ob("points", "stored before announced", all(ev_before(E, e, d) for d in dn), "the points must be there when RotationDone is handled")
    src = e.loops[0]
    lid = next((l for l, s in E.lsrc.items() if s is src), None)
    pt = e.args[1]
    while pt.op == "adt" and pt.a[0].split("::")[-1] != "Point" and len(pt.a[2]) == 1:
        pt = pt.a[2][0][1]
    if not c.ob("points", "understood", pt.op == "adt" and pt.a[0].split("::")[-1] == "Point" and lid is not None, "stored is %s" % show(pt, 4), where_of(e)):
        return
    red = proj(SELF, ROT + ("reduced", "Some.0"))
    M = proj(msg, ("rotation_matrix",))
    bad = badid = None
    n = 0
    nr = restrict(proj(fin, ("num_rotated",)), ready)
    nn = proj(SELF, ("dataset_stats", "Some.0", "n", "Some.0"))
    first = mul(idiv(nn, cl.n), cl.own)
    co, idt = proj(pt, ("coordinates",)), proj(pt, ("id",))
    for rows, cols in ((3, 2), (2, 1), (1, 3), (4, 2)):
        C = Cells(E, {}, {red: (rows, 3, cols), M: (3, 3, cols)})
        try:
            if C.length(src) != rows:
                bad = bad or "%d projected points with %d columns become %d" % (rows, cols, C.length(src))
                continue
            for r in range(rows):
                D = C.step_of(lid, r)
                if D.shape(co) != (2 * cols,):
                    bad = bad or "a point with %d columns has %s coordinates" % (cols, D.shape(co))
                    continue
                for k in range(2):
                    for i in range(cols):
                        n += 1
                        got = D.at(co, (k * cols + i,))
                        want = const(0)
                        for j in range(3):
                            want = add(want, mul(mk("cell", red, const(r), const(j), const(i)), mk("cell", M, const(k), const(j), const(i))))
                        if got is not want:
                            bad = bad or "coordinate %d of point %d (column %d of %d) is %s" % (k, r, i, cols, show(got, 5)[:150])
                m = {}
                for x in subterms(idt):
                    if x.op == "loopvar" and x in E.loopinfo:
                        v = D.scalar_lv(x)
                        if v is not None:
                            m[x] = v
                    elif x.op == "pos" and x.a[0] in D.bound:
                        m[x] = const(D.bound[x.a[0]])
                    elif x.op == "elem" and x.a[0] in D.bound and x.a[0].op == "adt" and "start" in dict(x.a[0].a[2]):
                        m[x] = add(proj(x.a[0], ("start",)), const(r))
                g = subst(idt, m)
                if cl.norm(g) is not cl.norm(add(first, const(r))):
                    badid = badid or "point %d has the id %s" % (r, show(g, 6)[:200])
            v = C.value(proj(nr, ("Some.0",)))
            if v is None or int(v) != rows:
                bad = bad or "%d points are counted as %s" % (rows, v)
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    c.ob("points", "coordinates", bad is None, "a point must be the first two coordinates of its projection turned by the matrix of each column: %s" % bad, where_of(e))
    c.ob("points", "ids", badid is None, "the points of node k must be numbered in order from k * (rows / nodes) on: %s" % badid, where_of(e))
    why = segment_of(proj(pt, ("segment",)), co, proj(SELF, ("parameters", "rate")))
    c.ob("points", "segment", why is None, "a point belongs to the segment of its angle: %s" % why, where_of(e))


def segment_of(t, co, rate):
    """segment k covers the angles from k to k + 1 times the full turn over the rate"""
    X, Y = mk("index", co, const(0)), mk("index", co, const(1))
    for n in (2, 3, 4, 7, 8, 50, 100):
        for k in range(n):
            for f in (0.02, 0.5, 0.98):
                th = (k + f) * 2 * math.pi / n
                for r in (0.5, 3.0):
                    try:
                        v = fval(t, {X: r * math.cos(th), Y: r * math.sin(th), rate: float(n)})
                    except (Unknown, ZeroDivisionError, OverflowError) as u:
                        return "not understood: %s" % u
                    if v != k:
                        return "with %d segments, a point at %.3f of the turn is put into segment %d" % (n, (k + f) / n, v)
    return None


def fn_named(c, nm, typ):
    bs = [b for b in c.p.bodies.values() if b.get("name") == nm and typ in b["path"] and b["kind"] != "Closure" and "promoted" not in b["key"] and b.get("blocks")]
    return bs[0] if bs else None


def shared(c, E, cl):
    """the main node's matrix reaches every node; one that arrived early is handed back"""
    fin = self_final(E)
    ss = [e for e in E.events if is_send(e) and base(e.gargs[-1]) == "RotationMatrixMessage"]
    own = [e for e in ss if e.args[1].op == "adt"]
    back = [e for e in ss if e.args[1].op != "adt"]
    last = no_panic(asb(restrict(boolt(asb(proj(fin, ROT + ("broadcasted",)))), bnot(asb(proj(SELF, ROT + ("broadcasted",)))))))
    facts = band(alive(E), role_facts())
    main = is_variant(proj(SELF, ("parameters", "role")), "Main")
    to_everyone(c, cl, "matrix", "shared", own, band(last, main), facts)
    for e in own:
        t = proj(e.args[1], ("rotation_matrix",))
        ref = restrict(proj(fin, ROT + ("reduced_ref", "Some.0")), band(last, main))
        check_matrix(c, E, t, ref)
        break
    buf = proj(SELF, ROT + ("rotation_matrix_buffer",))
    has = is_variant(buf, "Some")
    got, dis = union([no_panic(e.cond) for e in back])
    okb = all(not e.loops and cl.target(e.args[0])[0] == "self" and strip_payload2(e.args[1]) is proj(buf, ("Some.0",)) or not e.loops and e.args[1] is proj(buf, ("Some.0",)) and cl.target(e.args[0])[0] == "self" for e in back)
    c.ob("early matrix", "handed back", bool(back) and dis and okb and same_under(got, band(last, has), facts), "a matrix kept so far must be handled once the projection is done; it is handed back if %s" % showb(got)[:150])
    left = restrict(proj(fin, ROT + ("rotation_matrix_buffer",)), last)
    c.ob("early matrix", "handed back once", is_variant(left, "Some") == 0, "it must not stay in the buffer; there is %s" % show(left, 4)[:120])


def start(c, cl):
    """both entries into the analysis of a column"""
    ext = lambda x: x.get("name") == "pca" and x.get("trait") is not None
    n0 = proj(SELF, ROT + ("n_reduced",))
    for m in ("DataLoadedAndProcessed", "PCADoneMessage"):
        b = c.p.handler("Training", m)
        if not c.need(b, "handler of " + m):
            continue
        E = c.run(b, ext, "pcaopaque2")
        es = [e for e in E.events if e.kind == "call" and e.name == "pca"]
        if not c.ob("columns", m + ": analysed", len(es) == 1 and not es[0].loops, "a column is analysed at %d places" % len(es)):
            continue
        e = es[0]
        st = e.args[0]
        src = proj(st, ROT + ("phase_space", "Some.0"))
        bad = None
        for col in (0, 1, 2):
            C = Cells(E, {n0: const(col)}, {src: (3, 4, 3)})
            try:
                if C.shape(e.args[1]) != (3, 4):
                    bad = bad or "its shape is %s" % (C.shape(e.args[1]),)
                    continue
                for i in range(3):
                    for j in range(4):
                        g = C.at(e.args[1], (i, j))
                        if g is not mk("cell", src, const(i), const(j), const(col)):
                            bad = bad or "with %d columns done, entry (%d, %d) is %s" % (col, i, j, show(g, 4)[:120])
            except Unknown as u:
                bad = bad or "not understood: %s" % u
        c.ob("columns", m + ": column", bad is None, "the next column of the phase space must be analysed: %s" % bad, where_of(e))
        if m == "PCADoneMessage":
            continue
        msg = sym("msg")
        for f, w in (("phase_space", proj(msg, ("phase_space",))), ("data_ref", proj(msg, ("data_ref",)))):
            v = proj(st, ROT + (f, "Some.0"))
            c.ob("columns", f, strip_view(v) is w or v is w, "%s must be the one that was loaded; it is %s" % (f, show(v, 4)[:120]))
        for f, s_ in (("reduced", "phase_space"), ("reduced_ref", "data_ref")):
            v = proj(st, ROT + (f, "Some.0"))
            try:
                C = Cells(E, {}, {proj(msg, (s_,)): (5, 4, 2), proj(msg, ("data_ref" if s_ == "phase_space" else "phase_space",)): (9, 4, 2)})
                sh = C.shape(v)
            except Unknown as u:
                sh = "not understood: %s" % u
            c.ob("columns", f + " shape", sh == (5, 3, 2), "%s must have one row per row of %s, three components and all columns; for 5x4x2 it is %s" % (f, s_, sh))
        c.ob("columns", "own id", proj(st, ROT + ("pca", "id")) is cl.own, "the node's place in the reduction is its index; it is %s" % show(proj(st, ROT + ("pca", "id")), 4)[:120])
        c.ob("columns", "three components", proj(st, ROT + ("pca", "n_components")) is const(3), "three components are needed; there are %s" % show(proj(st, ROT + ("pca", "n_components")), 4)[:120])


def p19(c):
    cl = Cluster(c)
    b = c.p.handler("Training", "PCADoneMessage")
    if not c.need(b, "handler of PCADoneMessage"):
        return
    E = c.run(b)
    projection(c, E)
    columns(c, E, cl)
    shared(c, E, cl)
    start(c, cl)
    points(c, cl)
