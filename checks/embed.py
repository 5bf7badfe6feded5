"""P17 phase space and reference dataset."""
from input import *
import cells
from cells import Cells, Unknown

DM = "DataManager"


def fn_of(c, nm, typ):
    bs = [b for b in c.p.bodies.values() if b.get("name") == nm and typ in b["path"] and b["kind"] != "Closure" and "promoted" not in b["key"] and b.get("blocks")]
    return bs[0] if bs else None


def phase_space(c):
    b = fn_of(c, "build", "PhaseSpacer")
    if not c.need(b, "PhaseSpacer::build"):
        return
    E = c.run(b)
    data = proj(SELF, ("data",))
    pl, la = proj(SELF, ("parameters", "pattern_length")), proj(SELF, ("parameters", "latent"))
    bad = badshape = None
    n = 0
    # constants of the source decide at which points something special could happen
    special = sorted({k for x in E.events for k in tab.consts_in(boolt(x.cond), 3)} | {k for v in E.loopinfo.values() if v[1] is not None for k in tab.consts_in(v[1], 3)})[:3]
    for rows, p, l, cols in [(7, 4, 1, 2), (7, 4, 2, 1), (8, 5, 2, 2), (6, 3, 1, 1), (5, 5, 3, 1), (9, 5, 3, 1)] + [(k + 6, 4, 2, 1) for k in special]:
        nums = {pl: const(p), la: const(l)}

        def F(i, j, d):
            r = const(0)
            for k in range(i + j, i + j + l):
                r = add(r, mk("cell", data, const(k), const(d)))
            return r

        def hyp(lv, k, idx):
            if len(idx) == 2 and idx[0] < p - l:
                return F(k - 1, idx[0], idx[1])
            return None
        C = Cells(E, nums, {data: (rows, cols)}, hyp)
        try:
            sh = C.shape(E.ret)
            if sh != (rows - (p - 1), p - l, cols):
                badshape = badshape or "for %d rows, pattern length %d, latent %d it is %s" % (rows, p, l, sh)
                continue
            pts = range(sh[0]) if rows < 10 else range(max(0, sh[0] - 5), sh[0])
            ks = [k for k in range(sh[0] - 1) if k in pts]
            for i in pts:
                for j in range(sh[1]):
                    for d in range(cols):
                        n += 1
                        v = C.at(E.ret, (i, j, d))
                        if v is not F(i, j, d):
                            bad = bad or "point %d, lag %d, column %d (pattern length %d, latent %d) is %s" % (i, j, d, p, l, show(v, 6)[:120])
            for lv in list(C.used):
                init, step, lid = E.loopinfo[lv]
                for k in ks:
                    for j in range(sh[1]):
                        for d in range(cols):
                            D = C.step_of(lid, k)
                            if D.at(step, (j, d)) is not F(k, j, d):
                                bad = bad or "what is carried over from point %d, lag %d to the next point is %s" % (k, j, show(D.at(step, (j, d)), 6)[:120])
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    c.ob("phase space", "shape", badshape is None, "one point per window that fits, pattern_length - latent lags, all columns: %s" % badshape)
    c.ob("phase space", "values (%d cells)" % n if bad is None else "values", bad is None, "lag j of point i must be the sum of the latent values from row i + j on: %s" % bad)


def reference(c):
    b = fn_of(c, "build", "ReferenceDatasetBuilder")
    if not c.need(b, "ReferenceDatasetBuilder::build"):
        return
    E = c.run(b)
    ds = proj(SELF, ("data_stats",))
    mn, mx = proj(ds, ("min_col", "Some.0")), proj(ds, ("max_col", "Some.0"))
    pl, la = proj(SELF, ("parameters", "pattern_length")), proj(SELF, ("parameters", "latent"))
    bad = badshape = None
    n = 0
    for p, l, cols in ((4, 1, 2), (5, 3, 1)):
        C = Cells(E, {pl: const(p), la: const(l)}, {mn: (cols,), mx: (cols,)})
        try:
            sh = C.shape(E.ret)
            if sh[1:] != (p - l, cols) or sh[0] != 100:
                badshape = "for pattern length %d, latent %d it is %s" % (p, l, sh)
                continue
            for i in list(range(0, sh[0], 33)) + [1, sh[0] - 1]:
                for j in range(sh[1]):
                    for d in range(cols):
                        n += 1
                        v = C.at(E.ret, (i, j, d))
                        w = mul(const(l), mk("lin", mk("cell", mn, const(d)), mk("cell", mx, const(d)), const(sh[0]), const(i)))
                        if v is not w:
                            bad = bad or "sample %d, lag %d, column %d is %s" % (i, j, d, show(v, 6)[:150])
        except Unknown as u:
            bad = bad or "not understood: %s" % u
    c.ob("reference", "shape", badshape is None, "100 samples with the lags and columns of the phase space: %s" % badshape)
    c.ob("reference", "values", bad is None, "each sample must be the latent-fold of the value between minimum and maximum of its column: %s" % bad)


def hand_over(c):
    b = c.p.handler(DM, "PreprocessingDoneMessage")
    if not c.need(b, "handler of PreprocessingDoneMessage"):
        return
    ext = lambda x: x.get("name") == "build" and ("PhaseSpacer" in x["path"] or "ReferenceDatasetBuilder" in x["path"])
    E = c.run(b, ext, "embed")
    ss = [e for e in E.events if e.kind == "call" and e.name in ("do_send", "try_send", "send") and base(e.gargs[-1]) == "DataLoadedAndProcessed"]
    if not c.ob("handed over", "once", len(ss) == 1 and not ss[0].loops and no_panic(ss[0].cond) == 1, "DataLoadedAndProcessed must be sent exactly once; it is sent at %d places" % len(ss)):
        return
    e = ss[0]
    c.ob("handed over", "to the receiver", strip(e.args[0]) is proj(SELF, ("receiver",)), "sent to %s" % show(e.args[0], 4), where_of(e))
    pay = e.args[1]
    par, ds = proj(SELF, ("parameters",)), proj(SELF, ("dataset_stats",))

    def built(t, typ, first, second):
        t = strip(t)
        if not (is_call(t, "build") and len(t.a) == 2):
            return False
        o = t.a[1]
        return strip(proj(o, (first[0],))) is first[1] and all(proj(o, ("parameters", f)) is proj(par, (f,)) for f in ("pattern_length", "latent"))
    c.ob("handed over", "phase space", built(proj(pay, ("phase_space",)), "PhaseSpacer", ("data", proj(SELF, ("data", "Some.0"))), None), "the phase space must be built from this node's data; it is %s" % show(proj(pay, ("phase_space",)), 6)[:200], where_of(e))
    c.ob("handed over", "reference", built(proj(pay, ("data_ref",)), "ReferenceDatasetBuilder", ("data_stats", ds), None), "the reference must be built from the statistics; it is %s" % show(proj(pay, ("data_ref",)), 6)[:200], where_of(e))
    c.ob("handed over", "statistics", proj(pay, ("dataset_stats",)) is ds, "the statistics handed over are %s" % show(proj(pay, ("dataset_stats",)), 4), where_of(e))


def strip(t):
    while is_call(t, ("to_shared", "to_owned", "view", "into_shared", "clone")) and len(t.a) == 2:
        t = t.a[1]
    return t


def p17(c):
    phase_space(c)
    reference(c)
    hand_over(c)
