"""P25 contributions of the dimensions to each window's score (explainability)."""
from pca import *
from start import nm
from mapops import merges, local_map
from lists import listadds, is_empty_list, collected
import cells
from geo import Geo

AC = "AnomalyContribution"
MSG = sym("msg")
NC = proj(SELF, ("node_contribution",))


class Counted(Cells):
    """cells of arrays whose values come from a keyed count or from the map of node contributions"""
    maps = ()
    vecs = ()

    def look(self, t):
        """(map, key) if t is a value looked up in one of the maps"""
        while t.op == "field" and t.a[1] in ("Some.0", "Ok.0") or t.op in ("tofloat", "toint", "cast") or t.op == "call" and nm(t) in ("to_f32", "to_f64", "from", "into", "copied", "cloned"):
            t = t.a[0] if t.op != "call" else t.a[-1]
        if t.op == "call" and nm(t) in ("get", "index", "get_mut") and len(t.a) == 3:
            return t.a[1], t.a[2]
        if t.op == "index":
            return t.a[0], t.a[1]
        return None

    def _shape(self, t):
        r = self.look(t)
        if r and any(f(r[0]) for f in self.maps):
            return ()
        if r and any(f(r[0]) for f in self.vecs):
            return (2,)
        if t.op in ("tofloat", "cast"):
            return self.shape(t.a[0])
        g = cells.soft(t)
        if g.op == "call" and nm(g) == "get" and len(g.a) == 3:
            return self.shape(g.a[1])[1:]
        return Cells._shape(self, t)

    def _at(self, t, idx):
        r = self.look(t)
        if r and any(f(r[0]) for f in self.maps):
            k = r[1]
            if k.op == "adt" and base(k.a[0]) == "FloatApprox":
                k = proj(k, ("0",))
            return mk("count", self.at(k, ()))
        if r and any(f(r[0]) for f in self.vecs):
            return mk("contribution", self.at(r[1], ()), const(idx[0]))
        if t.op in ("tofloat", "cast"):
            return self.at(t.a[0], idx)
        g = cells.soft(t)
        if g.op == "call" and nm(g) == "get" and len(g.a) == 3:
            return self.at(g.a[1], (int(self.num(g.a[2])),) + tuple(idx))
        return Cells._at(self, t, idx)


def sent_centers(c):
    b = c.p.handler("Training", "ClusteringResponse")
    if not c.need(b, "handler of ClusteringResponse"):
        return
    E = c.run(b, None, "p25")
    ss = sends(E, "ClusterCenterMessage")
    ex = asb(proj(SELF, ("parameters", "explainability")))
    tot = 0
    L = proj(MSG, ("labels",))
    for e in ss:
        c.ob("recorded", "once", not e.loops and not band(tot, e.cond), "the clusters of a segment must be recorded once", where_of(e))
        tot = bor(tot, no_panic(e.cond))
        c.ob("recorded", "recipient", e.args[0] is proj(SELF, ("anomaly_contribution", "Some.0")), "the clusters go to %s" % show(e.args[0], 3), where_of(e))
        c.ob("recorded", "centers", proj(e.args[1], ("cluster_centers",)) is proj(MSG, ("cluster_centers",)), "the recorded centers must be those of the clustering", where_of(e))
        la = listadds(E, proj(e.args[1], ("nodes",)))
        ok = la is not None and la[0] is None and len(la[1]) == 1 and la[1][0].cond == 1 and la[1][0].val.op == "adt" and dict(la[1][0].val.a[2]).get("cluster") is elem(L)
        c.ob("recorded", "nodes", ok, "every node of the segment must be recorded with its label: %s" % (show(proj(e.args[1], ("nodes",)), 4)[:150]), where_of(e))
        counts(c, E, e, proj(e.args[1], ("label_counts",)), L)
    ne = [bnot(asb(x)) for at in bsupport(tot) for x in [at] if at.op == "call" and nm(at) == "is_empty"]
    c.ob("recorded", "when", any(tot == band(ex, n) for n in ne) or tot == ex or any(tot == band(ex, x) for x in len_atoms(tot, L)), "the clusters of every segment with crossings must be recorded exactly if contributions were asked for: if %s" % showb(tot)[:200])


def len_atoms(b, L):
    out = []
    for at in bsupport(b):
        if any(is_call(x, "len") and x.a[1] is L for x in subterms(at)):
            out += [bvar(at), bnot(bvar(at))]
    return out


def counts(c, E, e, t, L):
    """a list of one counter per label"""
    ok, why = False, show(t, 5)[:200]
    if t in E.loopinfo:
        init, step, lid = E.loopinfo[t]
        src = E.lsrc.get(lid)
        lst = src
        while lst is not None and (lst.op in ("iter", "copied", "cloned") or lst.op == "call" and nm(lst) in ("iter", "into_iter", "copied", "cloned")):
            lst = lst.a[0] if lst.op != "call" else lst.a[1]
        if lst is L and step is not None and step.op == "upd":
            w = [x for x in E.events if x.kind == "write" and x.loops and x.loops[-1] is src]
            k = mk("index", t, elem(L))
            val = [x for x in subterms(step) if x is add(k, const(1))]
            idx = [x for x in subterms(step) if x.op == "index" and x.a[0] is t]
            ok = bool(val) and all(x.a[1] is elem(L) for x in idx)
        n = None
        z = init
        if z.op == "collect" and z.a[0].op == "seq" and z.a[0].a[1] is const(0):
            s_ = z.a[0].a[0]
            if s_.op == "adt" and "end" in dict(s_.a[2]) and dict(s_.a[2])["start"] is const(0):
                n = dict(s_.a[2])["end"]
        elif z.op == "call" and nm(z) == "from_elem" and z.a[1] is const(0):
            n = z.a[2]
        elif z.op == "repeat" and z.a[0] is const(0):
            n = z.a[1]
        if n is not None:
            centers = proj(MSG, ("cluster_centers",))
            m = sub(n, const(1))
            okn = (m.op == "field" and m.a[1] == "Some.0" and is_call(m.a[0], "max") and contains(m.a[0], lambda x: x is L)) or (contains(n, lambda x: x is centers) and not contains(n, lambda x: x.op == "poly"))
            okn = okn or (m.op == "call" and nm(m) in ("fold", "unwrap_or", "unwrap_or_default", "max") and contains(m, lambda x: x is L))
            ok = ok and okn
            why = "%s counters" % show(n, 5)[:150]
        else:
            ok = False
    c.ob("recorded", "crossings per label", ok, "every label's crossings must be counted: %s" % why, where_of(e))


def centers_by_label(c):
    """row k of the returned centers belongs to label k"""
    b = c.p.handler("MultiKDEActor", "GaussianKDEResponse")
    if not c.need(b, "handler of GaussianKDEResponse"):
        return
    E = c.run(b, None, "p25")
    for e in sends(E, "ClusteringResponse"):
        t = proj(e.args[1], ("cluster_centers",))
        sorts = [x for x in subterms(t) if x.op == "call" and nm(x) in ("sorted_by_key", "sorted_by", "sorted_unstable_by_key", "sorted", "sorted_by_cached_key")]
        for x in sorts:
            clo = x.a[2] if len(x.a) > 2 else None
        c.ob("centers", "in the order of their labels", bool(sorts) or in_order(E, t), "the centers must be ordered by label: %s" % show(t, 6)[:200], where_of(e))
    b = c.p.handler("Training", "IntersectionCalculationDone")
    if not c.need(b, "handler of IntersectionCalculationDone"):
        return
    E = c.run(b, None, "p25")
    for e in sends(E, "ClusteringResponse"):
        t = proj(e.args[1], ("labels",))
        if t.op == "array":
            # a list written out: these are the clusters of the crossings when no clustering is run (one crossing, one row)
            bad = [x for x in t.a if x is not const(0)]
            c.ob("centers", "of a single crossing", not bad and len(t.a) <= 1, "a single crossing is its own cluster, number 0, the only row of the centers: labels %s" % show(t, 5)[:120], where_of(e))


def in_order(E, t):
    """not taken from the iteration of a hash map"""
    lvs = [x for x in subterms(t) if x.op == "loopvar" and x in E.loopinfo and E.loopinfo[x][1] is not None]
    return any(E.loopinfo[x][1].op in ("ite", "mut") and any(y.op == "mut" and nm(y) == "push" and y.a[2] is x for y in subterms(E.loopinfo[x][1])) for x in lvs)


def uniqueness(c):
    b = c.p.handler(AC, "ClusterCenterMessage")
    if not c.need(b, "handler of ClusterCenterMessage"):
        return
    E = c.run(b, None, "p25")
    CC, LC = proj(MSG, ("cluster_centers",)), proj(MSG, ("label_counts",))
    ms = merges(E, NC)
    N = elem(proj(MSG, ("nodes",)))
    ok = len(ms) == 1 and ms[0].key is N and no_panic(ms[0].cond) == 1 and ms[0].absent is ms[0].present and len(ms[0].loops) == 1
    if not c.ob("dimensions", "for every node", ok, "every node must be given its contribution: %s" % (ms,)):
        return
    v = ms[0].present
    while v.op == "call" and nm(v) in ("to_owned", "clone", "into_owned"):
        v = v.a[1]
    cl = proj(N, ("cluster",))
    M = None
    if v.op == "call" and nm(v) == "row" and v.a[2] is cl:
        M = v.a[1]
    elif v.op == "call" and nm(v) == "index_axis" and cells.axis(v.a[2]) == 0 and v.a[3] is cl:
        M = v.a[1]
    elif v.op == "call" and nm(v) == "slice" and contains(v, lambda x: x is cl):
        M = v.a[1]
    elif v.op == "call" and nm(v) == "select" or v.op == "index" and v.a[1] is cl:
        M = v.a[0] if v.op == "index" else v.a[1]
    if not c.ob("dimensions", "of its cluster", M is not None, "a node's contribution must be that of its own cluster: %s" % show(v, 5)[:200], ms[0].where):
        return
    # the counts
    looked = {}
    for lv in list(E.loopinfo):
        init = E.loopinfo[lv][0]
        if is_empty_list(init) or init.op == "call" and nm(init) in ("new", "with_capacity", "default"):
            looked[lv.a[1]] = lv
    bad, good = None, []
    for path, lv in looked.items():
        f = local_map(E, lv)
        mm = merges(E, None, ismap=f)
        if not mm:
            continue
        good.append(f)
        for m in mm:
            okm = len(mm) == 1 and no_panic(m.cond) == 1 and m.absent is elem(LC) and m.present is add(sym("OLD"), elem(LC)) if False else (len(mm) == 1 and no_panic(m.cond) == 1)
            okm = okm and m.absent is elem(LC) and sub(m.present, elem(LC)).op == "sym" and len(m.loops) == 2
            if not okm:
                bad = bad or "%s" % (m,)
                continue
            k = proj(m.key, ("0",)) if m.key.op == "adt" and base(m.key.a[0]) == "FloatApprox" else m.key
            for n, d in ((2, 1), (3, 2)):
                C = Counted(E, {}, {CC: (n, d), LC: (n,)})
                for i in range(n):
                    for j in range(d):
                        try:
                            x = C.inside({**C.bind(m.loops[0], j), **C.bind(m.loops[1], i)}).at(k, ())
                        except Unknown as u:
                            bad = bad or "not understood: %s" % u
                            continue
                        if x is not mk("cell", CC, const(i), const(j)):
                            bad = bad or "the crossings of label %d are counted for %s in dimension %d" % (i, show(x, 4)[:100], j)
    if not c.ob("dimensions", "counts", bool(good) and bad is None, "per dimension, the crossings of all labels with the same center value must be counted together: %s" % (bad or "no counts found"), ms[0].where):
        return
    bad = None
    for n, d in ((2, 1), (3, 2)):
        C = Counted(E, {}, {CC: (n, d), LC: (n,)})
        C.__class__ = type("CountedHere", (Counted,), {"maps": tuple(good)})
        tot = const(0)
        for i in range(n):
            tot = add(tot, mk("cell", LC, const(i)))
        try:
            if C.shape(M) != (n, d):
                bad = "shape %s" % (C.shape(M),)
            for i in range(n):
                for j in range(d):
                    x = unf(C.at(M, (i, j)))
                    want = sub(const(1), fdiv(mk("count", mk("cell", CC, const(i), const(j))), tot))
                    if x is not want:
                        bad = bad or "cluster %d, dimension %d: %s" % (i, j, show(x, 6)[:200])
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    ND = proj(SELF, ("n_dims",))
    fin = restrict_deep(proj(self_final(E), ("n_dims",)), bnot(bvar(mk("is", ND, "Some"))))
    ok, why = fin.op == "adt" and fin.a[1] == "Some", show(fin, 4)[:120]
    if ok:
        for n, d in ((2, 1), (2, 3)):
            C = Counted(E, {}, {CC: (n, d), LC: (n,)})
            try:
                x = C.num(proj(fin, ("Some.0",)))
                ok = ok and x == d
                why = "%s for %d clusters in %d dimensions" % (x, n, d)
            except Unknown as u:
                ok, why = False, "not understood: %s" % u
    c.ob("dimensions", "number", ok, "the number of dimensions must be remembered for windows without nodes: %s" % why)
    c.ob("dimensions", "uniqueness", bad is None, "a cluster's contribution in a dimension must be one minus the share of crossings with the same center value: %s" % bad, ms[0].where)


def unf(t):
    m = {}
    for _ in range(4):
        m = {x: x.a[0] for x in subterms(t) if x.op in ("tofloat", "cast")}
        m.update({x: x.a[0].a[-1] for x in subterms(t) if x.op == "field" and x.a[1] == "Some.0" and x.a[0].op == "call" and nm(x.a[0]) in ("to_f32", "to_f64")})
        m.update({x: x.a[-1] for x in subterms(t) if x.op == "call" and nm(x) in ("to_f32", "to_f64")})
        if not m:
            return t
        t = subst(t, m)
    return t


def averaged(c):
    b = c.p.handler(AC, "QueryClusterContribution")
    if not c.need(b, "handler of QueryClusterContribution"):
        return
    E = c.run(b, None, "p25")
    N = proj(MSG, ("nodes",))
    Q = proj(SELF, ("query_response",))
    has = bvar(mk("is", Q, "Some"))
    fin = proj(self_final(E), ("query_response",))
    some_, none_ = restrict_deep(fin, has), restrict_deep(fin, bnot(has))
    la = listadds(E, proj(some_, ("Some.0",)))
    ok = la is not None and la[0] is proj(Q, ("Some.0",)) and len(la[1]) == 1 and no_panic(la[1][0].cond) == 1 and la[1][0].src is None
    if not c.ob("windows", "appended", ok, "every window's contribution must be added behind the earlier ones: %s" % show(some_, 5)[:200]):
        return
    V = la[1][0].val
    l0 = listadds(E, proj(none_, ("Some.0",)))
    first = l0[1][0].val if l0 is not None and l0[0] is None and len(l0[1]) == 1 else None
    c.ob("windows", "first", none_.op == "adt" and none_.a[1] == "Some" and (first is None or first is V or restrict_deep(V, bnot(has)) is first) and (first is not None or contains(none_, lambda x: x.op in ("vec", "call", "array", "boxnew"))), "the first window's contribution must be kept: %s" % show(none_, 5)[:200])
    nan = {x: boolt(0) for x in subterms(V) if x.op == "call" and nm(x) == "is_nan"}
    V = collected(E, subst(V, nan))
    bad = None
    for n in (1, 2, 3, 0):
        C = Counted(E, {}, {N: (n,)})
        vecs = type("Vecs", (Counted,), {"vecs": (lambda t: t is NC,)})
        C.__class__ = vecs
        try:
            V2 = V
            m = {}
            for x in subterms(V):
                if x.op == "call" and nm(x) == "is_empty" and contains(x, lambda y: y is N):
                    m[x] = boolt(1 if n == 0 else 0)
                elif x.op == "call" and nm(x) == "len" and contains(x, lambda y: y is N):
                    m[x] = const(n)
            V2 = subst(V, m)
            if n == 0:
                sh = [x for x in subterms(V2) if is_call(x, "zeros")]
                if V2.op == "call" and nm(V2) in ("mean_axis", "stack") or not (is_call(V2, "zeros") and contains(V2, lambda x: x is proj(SELF, ("n_dims",)))):
                    bad = bad or "a window without nodes has the contribution %s" % show(V2, 5)[:150]
                continue
            if C.shape(V2) != (2,):
                bad = bad or "shape %s" % (C.shape(V2),)
                continue
            for i in range(2):
                want = const(0)
                for k in range(n):
                    want = add(want, mk("contribution", mk("cell", N, const(k)), const(i)))
                want = fdiv(want, const(n))
                x = unf(C.at(V2, (i,)))
                if x is not want:
                    bad = bad or "of %d nodes, dimension %d: %s" % (n, i, show(x, 6)[:200])
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    c.ob("windows", "average", bad is None, "a window's contribution must be the average of its nodes' contributions, and zero without nodes: %s" % bad)


def answered(c):
    b = c.p.handler(AC, "QueryClustercontributionDone")
    if c.need(b, "handler of QueryClustercontributionDone"):
        E = c.run(b, None, "p25")
        ss = sends(E, "QueryClusterContributionResponse")
        ok = len(ss) == 1 and not ss[0].loops and no_panic(ss[0].cond) == 1 and ss[0].args[0] is proj(MSG, ("receiver",))
        c.ob("windows", "answered", ok and proj(ss[0].args[1], ("contributions",)) is proj(SELF, ("query_response", "Some.0")), "the contributions of all windows must be answered once, in order, to whoever asked")
    b = c.p.handler("Training", "QueryClusterContributionResponse")
    if not c.need(b, "handler of QueryClusterContributionResponse"):
        return
    E = c.run(b, None, "p25")
    fc = [e for e in E.events if e.kind == "call" and e.name in ("create", "from_path") and contains(e.args[-1], lambda x: x is proj(SELF, ("parameters", "anomaly_contribution_output_path")))]
    c.ob("file", "path", len(fc) == 1, "the contributions must be written to the given file")
    ws = [e for e in E.events if e.kind == "call" and e.name in ("serialize", "write_record") and "csv" in e.fn]
    ok = len(ws) == 1 and len(ws[0].loops) == 1 and no_panic(ws[0].cond) == 1
    if c.ob("file", "a row per window", ok, "every window must get one row: %d writes" % len(ws), where_of(ws[0]) if ws else None):
        e = ws[0]
        A = proj(MSG, ("contributions",))
        C = Counted(E, {}, {A: (3, 2)})
        try:
            n = C.length(e.loops[0])
            ok, why = n == 3, "%s rows for 3 windows" % n
            src = e.loops[0]
            while src.op in ("enumerate",) or src.op == "call" and nm(src) in ("enumerate", "iter", "into_iter"):
                src = src.a[0] if src.op == "enumerate" else src.a[1]
            if ok and any(x.op == "call" and nm(x) in ("rev", "invert_axis", "reversed_axes", "skip", "take", "step_by", "t") for x in subterms(src)):
                ok, why = False, "the rows are taken as %s" % show(src, 4)[:120]
            if ok and not contains(e.args[1], lambda x: x is elem(src) or x is elem(e.loops[0])):
                ok, why = False, "the row is %s" % show(e.args[1], 4)[:150]
        except Unknown as u:
            ok, why = False, "not understood: %s" % u
        c.ob("file", "rows in order", ok, "the rows must be the windows' contributions in order: %s" % why, where_of(e))
        relative(c, E, e, A)
    bad = None
    for e in E.events:
        for lv in [x for x in E.loopinfo if E.loopinfo[x][0].op == "adt" and E.loopinfo[x][0].a[1] == "None"]:
            known = bvar(mk("is", lv, "Some"))
            if e.kind == "unwrap" and e.args and e.args[0] is lv and not bimp(e.cond, known) or e.kind == "panic" and e.cond not in (0, 1) and e.loops and any(at is bsupport_one(known) for at in bsupport(e.cond)):
                bad = bad or e
    c.ob("file", "windows before the first contribution", bad is None, "a window without contribution may come first; there is no earlier one to take its place then", where_of(bad) if bad else None)
    fl = [e for e in E.events if e.kind == "call" and e.name == "flush" and no_panic(e.cond) == 1 and not e.loops]
    drp = []
    dn = sends(E, "ScoringDone")
    okd = len(dn) == 1 and no_panic(dn[0].cond) == 1 and not dn[0].loops and is_call(dn[0].args[0], "address")
    c.ob("file", "then done", okd, "the end of scoring must be reported once, when the contributions are written", where_of(dn[0]) if dn else None)
    c.ob("file", "complete", bool(fl) and bool(ws) and all(f.idx > ws[0].idx for f in fl) and okd and fl[0].idx < dn[0].idx, "all rows must be in the file before the end of scoring is reported")


def relative(c, E, e, A):
    """the rows written, as a function of the windows' contributions"""
    bad = None
    n = 0
    try:
        for M in ([[.5, .1], [.25, .7], [.75, .3], [.1, .9], [.4, .2]], [[.5, .1, .3], [0, 0, 0], [.7, .4, .6], [.2, .8, .1]], [[.3, .2], [0, 0], [0, 0], [.9, .5], [.6, .1], [.1, .4]], [[0, 0], [.25, .5], [.75, .125]], [[.5, .1], [.2, .8], [0, 0], [.7, .3], [.4, .2]]):
            G = Geo(E, {A: M})
            src = e.loops[0]
            got = rows_of(G, E, e)
            full = []
            for r in M:
                full.append(full[-1] if full and not any(r) else r)
            med = [sorted(x)[len(x) // 2] for x in zip(*full)]
            want = [[x - m for x, m in zip(r, med)] for r in full]
            n += 1
            if len(got) != len(want) or any(abs(x - y) > 1e-9 for r, w in zip(got, want) for x, y in zip(r, w)):
                bad = bad or "for windows with the contributions %s the rows are %s" % (M, [[round(float(x), 3) for x in r] for r in got])
    except (Unknown, TypeError, IndexError, ValueError) as u:
        c.assume.append("the values of the rows of the contribution file were not decided: %s" % u)
        return
    c.ob("file", "values", bad is None, "a row must be the window's contributions relative to each dimension's median, a window without any taking those of the one before: %s" % bad, where_of(e))


def rows_of(G, E, e):
    """what is written, turn by turn"""
    lid = next((l for l, s in E.lsrc.items() if s is e.loops[0]), None)
    lvs = [x for x, i in E.loopinfo.items() if i[2] is lid and x.op == "loopvar" and contains(e.args[1], lambda y: y is x)]
    cur = {x: G(E.loopinfo[x][0]) for x in lvs}
    out = []
    for m in G.items(e.loops[0]):
        b = {**m, **cur}
        out.append(G.within(b, lambda: G(e.args[1])))
        cur = {x: G.within(b, lambda: G(E.loopinfo[x][1])) if E.loopinfo[x][1] is not None else cur[x] for x in lvs}
    return out


def bsupport_one(b):
    return next(iter(bsupport(b)))


def requested(c):
    """scoring ends with the contributions if and only if they were asked for"""
    ex = asb(proj(SELF, ("parameters", "explainability")))
    n = 0
    for b in c.p.bodies.values():
        if b.get("name") != "finalize_scoring" or b["kind"] == "Closure" or base(b.get("self_ty") or "") != "Training":
            continue
        n += 1
        E = c.run(b, None, "p25")
        ask = done = 0
        for e in sends(E, "QueryClustercontributionDone"):
            c.ob("windows", "asked once", not e.loops and not band(ask, e.cond), "the contributions must be asked for once", where_of(e))
            ask = bor(ask, no_panic(e.cond))
            last = [x.idx for x in sends(E, "QueryClusterContribution")]
            c.ob("windows", "asked last", all(e.idx > i for i in last), "the answer must be asked for after all windows", where_of(e))
        for e in sends(E, "ScoringDone"):
            done = bor(done, no_panic(e.cond))
        c.ob("windows", "asked for", ask == ex, "the contributions must be collected exactly if they were asked for: if %s" % showb(ask)[:200])
        c.ob("windows", "otherwise done", done == bnot(ex), "without contributions the end must be reported at once, and with them only after they are written: if %s" % showb(done)[:200])
    c.floor("end of scoring", n, 1)


def p25(c):
    sent_centers(c)
    centers_by_label(c)
    uniqueness(c)
    averaged(c)
    answered(c)
    requested(c)
