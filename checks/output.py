"""P07 joining of sub-scores, normalisation and result output."""
from scoring import *

SCORE = ("scoring", "score")


def strip_copy(t):
    """through whole-list copies (collect/clone/view/to_vec of a list as is)"""
    while True:
        if t.op == "collect":
            t = t.a[0]
        elif t.op == "seq" and asb(t.a[2]) == 1 and t.a[1] is elem(t.a[0]):
            t = t.a[0]
        elif t.op == "call" and t.a[0].split("::")[-1] in ("from_vec", "to_vec", "clone", "view", "to_owned", "into_raw_vec", "from", "into", "from_iter", "arr1", "as_slice", "into_iter", "iter", "into_owned", "Borrowed") and len(t.a) == 2:
            t = t.a[1]
        else:
            return t


def minmax_of(t):
    """('min'|'max', list) if t is the smallest/largest element of a list"""
    x = t
    if x.op == "field" and x.a[1] in ("Ok.0", "Some.0"):
        x = x.a[0]
    if x.op == "call" and x.a[0].split("::")[-1] in ("max", "min", "max_skipnan", "min_skipnan") and len(x.a) == 2:
        return x.a[0].split("::")[-1][:3], strip_copy(x.a[1])
    return None


def minmax_loop(E, t):
    """running minimum/maximum over a loop, started from +-infinity or an element"""
    if t.op == "loopvar" and t in E.loopinfo:
        init, step, lid = E.loopinfo[t]
        src = E.lsrc.get(lid)
        if step is None or src is None:
            return None
        for k in ("min", "max"):
            if step.op in (k, "f" + k) and t in step.a and elem(src) in step.a:
                return k, strip_copy(src)
            if step.op == "ite":
                a, b = step.a[1], step.a[2]
                if {a, b} == {t, elem(src)}:
                    cnd = step.a[0]
                    e = elem(src)
                    lt = [cmp("lt", e, t, "f32"), cmp("le", e, t, "f32")]
                    gt = [cmp("lt", t, e, "f32"), cmp("le", t, e, "f32")]
                    takes = cnd if a is e else bnot(cnd)
                    if k == "min" and takes in lt:
                        return k, strip_copy(src)
                    if k == "max" and takes in gt:
                        return k, strip_copy(src)
    return None


def normalised(E, v):
    """the list X if v = (x - min X) / (max X - min X) for every x of X, in order"""
    v = strip_copy(mapped(E, strip_copy(v)))
    if v.op != "seq" or asb(v.a[2]) != 1:
        return None, "not an element-wise transformation of the scores: %s" % show(v, 6)
    X, f = v.a[0], v.a[1]
    Xs = strip_copy(X)
    x = elem(X)
    mm = {}
    for y in subterms(f):
        r = minmax_of(y) or minmax_loop(E, y)
        if r and (r[1] is Xs):
            mm.setdefault(r[0], y)
    if "min" not in mm or "max" not in mm:
        return None, "smallest and largest score of the same list are not both used: %s" % show(f, 7)
    mn, mx = mm["min"], mm["max"]
    m = {}
    for y in subterms(f):
        r = minmax_of(y) or minmax_loop(E, y)
        if r and r[1] is Xs:
            m[y] = mm[r[0]]
    f = subst(f, m)
    want = fdiv(sub(x, mn), sub(mx, mn))
    if f is not want:
        return None, "a score must become (x - min) / (max - min); it becomes %s" % show(f, 8)
    return X, ""


def fdiv(a, b):
    return mk("fdiv", a, b)


def last_of(t):
    """the list whose last element t is"""
    if t.op == "field" and t.a[1] == "Some.0" and is_call(t.a[0], "last"):
        return t.a[0].a[1]
    if t.op == "index" and isinstance(t.a[1], T):
        l = t.a[0]
        if t.a[1] is sub(mk("call", "std::vec::Vec::len", l), const(1)):
            return l
        for x in subterms(t.a[1]):
            if x.op == "call" and x.a[0].split("::")[-1] == "len" and x.a[1] is l and t.a[1] is sub(x, const(1)):
                return l
    return None


def join_parts(E, X):
    """list of Adds (src, val) that are concatenated to X, in order"""
    t = strip_copy(X)
    if t.op == "field" and t.a[1] == "Ok.0":
        t = t.a[0]
    if is_call(t, "concatenate") and len(t.a) == 3:
        ax = t.a[1]
        if not (ax.op == "adt" and dict(ax.a[2]).get("0") is const(0)):
            return None
        r = listadds(E, strip_copy(t.a[2]))
        return r and r[0] is None and r[1] or None
    if t.op == "flat":
        s = t.a[0]
        l = s.a[0] if s.op == "seq" and asb(s.a[2]) == 1 and strip_copy(s.a[1]) is elem(s.a[0]) else s if s.op != "seq" else None
        r = listadds(E, strip_copy(l)) if l is not None else None
        return r and r[0] is None and r[1] or None
    r = listadds(E, t)
    if r and r[0] is None:
        out = []
        for a in r[1]:
            if a.src is not None and a.src.op == "flat":
                out.append(Add(a.src.a[0], a.src.a[1], a.cond))
            else:
                return None
        return out
    return None


def check_join(c, E, b, cl):
    """the complete score of a cluster: node 0..n in order, gaps at a node's start filled from the node before"""
    fin = self_final(E)
    op = [e for e in sends(E, "ScoringDone")] + [e for e in sends(E, "QueryClustercontributionDone")]
    cov, _ = union([e.cond for e in op])
    none = bnot(is_variant(proj(SELF, SCORE), "Some"))
    when = band(cov, none)
    v = restrict(proj(fin, SCORE), when)
    if not c.ob("score-set", "SubScores", v.op == "adt" and v.a[1] == "Some", "the joined score is not stored when the last sub-scores arrive; score is %s" % show(v, 5)):
        return None
    v = proj(v, ("Some.0",))
    X, why = normalised(E, v)
    c.ob("normalised-over-all", "SubScores", X is not None, why)
    parts = join_parts(E, X if X is not None else strip_copy(v).a[0] if strip_copy(v).op == "seq" else v)
    okp = bool(parts) and len({a.src for a in parts}) == 1
    c.ob("joined", "SubScores", okp, "the score is not the concatenation of the nodes' sub-scores along their time axis: %s" % (show(X if X is not None else v, 7)))
    if not okp:
        return v
    src = parts[0].src
    full = is_range(src) and rparts(src)[0] is const(0) and (rparts(src)[1] is proj(SELF, ("parameters", "n_cluster_nodes")) or rparts(src)[1] is add(cl.n, const(1)) or rparts(src)[1] is cl.n)
    c.ob("joined-in-order", "SubScores", full and union([a.cond for a in parts]) == (1, True), "sub-scores must be joined for node 0, 1, ... up to the number of cluster nodes; joined over %s" % show(src, 5))
    i = elem(src)
    for a in parts:
        # which sub-score
        ls = [x for x in subterms(a.val) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get", "index") and len(x.a) == 3 and x.a[2] is i]
        base_ok = [x for x in ls if from_subscores(E, x.a[1])]
        if not c.ob("joined-by-position", "SubScores", len({(x.a[0], x.a[1]) for x in base_ok}) >= 1 and not [x for x in subterms(a.val) if x.op == "call" and x.a[0].split("::")[-1] in ("remove", "get") and from_subscores(E, x.a[1]) and x.a[2] is not i], "the i-th part must be the sub-scores kept for node i; got %s" % show(a.val, 7)):
            continue
        x = base_ok[0]
        ent = proj(x, ("Some.0",)) if not x.a[0].endswith("index") else x
        own = proj(ent, ("0",))
        fe = asb(proj(ent, ("1",)))
        keep = restrict(a.val, bnot(fe))
        c.ob("joined-unchanged", "SubScores", keep is own, "sub-scores without leading gap must be used as they are; used: %s" % show(keep, 6))
        filled = restrict(a.val, fe)
        init = fill_init(E, filled)
        ok = init is not None and fill_ok(E, filled, init) and fill_origin(E, filled) is own and prev_last(E, init, src, a.val)
        c.ob("gap-between-nodes", "SubScores", ok, "a leading gap of a node's sub-scores must take the last score of the node before; it takes %s" % (show(init, 6) if init is not None else show(filled, 5)))
    return v


def from_subscores(E, t):
    while t.op in ("loopvar", "mut"):
        if t.op == "loopvar":
            if t not in E.loopinfo:
                return False
            t = E.loopinfo[t][0]
        else:
            t = t.a[2]
    return fieldpath(t) == ("self", "scoring", "subscores")


def fill_origin(E, t):
    return E.loopinfo[t][0] if t.op == "loopvar" and t in E.loopinfo else None


def fill_init(E, t):
    """value that replaces a missing first entry"""
    if t.op != "loopvar" or t not in E.loopinfo:
        return None
    _, step, lid = E.loopinfo[t]
    src = E.lsrc.get(lid)
    if src is None:
        return None
    i = elem(src)
    for x in subterms(step):
        if x.op == "loopvar" and x is not t and x in E.loopinfo and E.loopinfo[x][2] is lid and E.loopinfo[x][1] is proj1(step, ("ix", i)):
            return E.loopinfo[x][0]
    miss = cmp("eq", proj1(t, ("ix", i)), const(0), "f32")
    first = cmp("eq", i, const(0), "usize")
    return restrict(proj1(step, ("ix", i)), band(miss, first))


def prev_last(E, init, src, val):
    """init is the last score of the part pushed before"""
    if last_of(init) is not None:
        inner = last_of(init)
        lst = last_of(inner)
        if lst is None and inner.op == "index" and isinstance(inner.a[1], T) and inner.a[1] is sub(elem(src), const(1)):
            lst = inner.a[0]
        if lst is not None and lst.op == "loopvar" and lst in E.loopinfo:
            st = E.loopinfo[lst]
            r = listadds(E, lst)
            return bool(r) and r[0] is None and len(r[1]) >= 1 and all(a.src is src for a in r[1])
        # a flat list of everything joined so far
        if inner.op == "loopvar" and inner in E.loopinfo:
            return join_parts(E, inner) is not None
    if init.op == "field" and init.a[1] == "Some.0" and init.a[0].op == "loopvar":
        init = init.a[0]
    if init.op == "loopvar" and init in E.loopinfo:
        s = E.loopinfo[init][1]
        if s is not None and s.op == "adt" and s.a[1] == "Some":
            s = proj(s, ("Some.0",))
        return s is not None and last_of(s) is val
    return False


def csv_rows(c, E, lab, path, when, score, what):
    """all elements of `score` are written to `path`, one row each, exactly under `when`"""
    cr = [e for e in E.events if e.kind == "call" and e.name in ("create", "from_path") and e.args and e.args[-1 if e.name == "from_path" else 0] is path]
    cov, dj = union([e.cond for e in cr])
    c.ob("output-file", lab, cr and cov == when and dj, "%s must be written to the requested file whenever a path is given; the file is created under %s, expected %s" % (what, showb(cov)[:200] if cr else "never", showb(when)[:200]), where_of(cr[0]) if cr else None)
    ws = [e for e in E.events if e.kind == "call" and e.name in ("serialize", "write_record", "write_field") and cr and any(cr[0].res is x for x in subterms(root_writer(E, e.args[0])))]
    ok = bool(ws)
    none = bnot(is_variant(proj(SELF, SCORE), "Some"))
    for e in ws:
        okl = len(e.loops) == 1
        for cc in (none, bnot(none)):
            cc = band(e.cond, cc)
            if not okl or cc == 0:
                continue
            src, val = indexed(restrict_deep(e.loops[0], cc), restrict_deep(e.args[1], cc))
            okl = strip_copy(src) is strip_copy(restrict_deep(score, cc)) and val in (elem(src), mk("elem", src), restrict_deep(elem(e.loops[0]), cc))
        ok = ok and okl
    flushed(c, E, lab, when, cr, ws, what)
    c.ob("output-complete", lab, ok and len(ws) == 1, "the output file must hold every score once, in order; written: %s" % [(show(e.args[1], 5), [show(l, 4) for l in e.loops]) for e in ws][:2], where_of(ws[0]) if ws else None)


BUFFERED = ("csv", "BufWriter", "LineWriter")


def flushed(c, E, lab, when, cr, ws, what):
    """what is still buffered at the end is written, and a failure to do so is not lost"""
    if not ws or not cr:
        return
    w0 = ws[0]
    ty = " ".join([w0.fn or "", w0.argty[0] if w0.argty else ""])
    if not any(k in ty for k in BUFFERED):
        return
    fl = [e for e in E.events if e.kind == "call" and e.name in ("flush", "into_inner", "sync_all", "finish") and e.idx > w0.idx and e.args and not (set(w0.loops) & set(e.loops) if w0.loops else False) and any(cr[0].res is x for x in subterms(root_writer(E, e.args[0])))]
    cov = 0
    for e in fl:
        cov = bor(cov, e.cond)
    # before that, only a failure may end the writing
    cov = bexists(cov, lambda a: (a.op == "is" and a.a[1] in ("Ok", "Err")) or a.op == "exists" and all(z.op == "is" and z.a[1] in ("Ok", "Err", "Some") for z in bsupport(asb(a.a[1]))))
    c.ob("output-flushed", lab, fl and not band(when, bnot(cov)), "%s: rows still buffered must be flushed with the error reported; otherwise a truncated file goes unnoticed" % what, where_of(w0))
    lost = [e for e in fl if e.res is not None and not used(E, e)]
    c.ob("output-flushed", lab + ": failure reported", not lost, "%s: an error of the last write is dropped" % what, where_of(lost[0]) if lost else None)


def used(E, e):
    """the result is looked at: unwrapped, branched on or returned"""
    r = e.res
    for x in E.events:
        if x is not e and (any(isinstance(a, T) and contains(a, lambda z: z is r) for a in x.args or ()) or any(contains(a, lambda z: z is r) for a in bsupport(x.cond))):
            return True
    return contains(E.ret, lambda z: z is r) if E.ret is not None else False


def root_writer(E, t):
    n = 0
    while n < 20:
        n += 1
        if t.op == "loopvar" and t in E.loopinfo:
            t = E.loopinfo[t][0]
        elif t.op == "mut":
            t = t.a[2]
        else:
            return t
    return t


def p07(c):
    op = proto_opaque(c.p)
    cl = Cluster(c)
    path = proj(SELF, ("parameters", "score_output_path"))
    # cluster case
    b = c.need(c.p.handler("Training", "SubScores"), "handler for SubScores")
    if b:
        E = c.run(b, op, "proto")
        v = check_join(c, E, b, cl)
        common(c, E, "SubScores", path)
        final_msgs(c, E, "SubScores")
    # single node
    b = c.need(c.p.handler("Training", "ScoringHelperResponse"), "handler for ScoringHelperResponse")
    if b:
        E = c.run(b, op, "proto")
        fin = self_final(E)
        es = sends(E, "ScoringDone") + sends(E, "QueryClustercontributionDone")
        cov, dj = union([e.cond for e in es])
        if c.ob("local-completion", "ScoringHelperResponse", es and cov != 0 and dj, "a single node never finishes scoring"):
            v = restrict(proj(fin, SCORE), cov)
            ok = v.op == "adt" and v.a[1] == "Some"
            c.ob("score-set", "ScoringHelperResponse", ok, "the score is not stored when scoring is finished: %s" % show(v, 5))
            if ok:
                X, why = normalised(E, proj(v, ("Some.0",)))
                c.ob("normalised-over-all", "ScoringHelperResponse", X is not None, why)
                if X is not None:
                    l = strip_copy(X)
                    r = listadds(E, l)
                    c.ob("all-scores-used", "ScoringHelperResponse", r is not None and r[0] is proj(SELF, ("scoring", "single_scores")) and len(r[1]) >= 1, "the score of a single node must be its whole reassembled list; it is %s" % show(l, 6))
            common(c, E, "ScoringHelperResponse", path)
            final_msgs(c, E, "ScoringHelperResponse")
    # sub-scores are only sent by nodes that keep their own under their position (P04) and never normalised before
    for m in ("ScoringHelperResponse",):
        b = c.p.handler("Training", m)
        E = c.run(b, op, "proto")
        for e in sends(E, "SubScores"):
            sc = restrict(proj(e.args[1], ("scores",)), e.cond)
            bad = [x for x in subterms(strip_copy(sc)) if x.op == "fdiv"]
            c.ob("not-normalised-early", m, not bad, "sub-scores are rescaled before the scores of all nodes are known: %s" % show(sc, 6), where_of(e))


def common(c, E, lab, path):
    """output of the score"""
    fin = self_final(E)
    es = sends(E, "ScoringDone") + sends(E, "QueryClustercontributionDone")
    cov, dj = union([e.cond for e in es])
    when = band(cov, is_variant(path, "Some"))
    score = proj(proj(fin, SCORE), ("Some.0",))
    csv_rows(c, E, lab, proj(path, ("Some.0",)), when, score, "the score")
    # the result is announced after the file was written
    wr = [e for e in E.events if e.kind == "call" and e.name in ("serialize", "flush") and "csv" in e.fn]
    late = [x for x in wr for e in sends(E, "ScoringDone") if x.idx > e.idx and band(x.cond, e.cond) != 0]
    c.ob("announced-after-output", lab, not late, "the end of scoring is announced before the scores are written", where_of(late[0]) if late else None)


def final_msgs(c, E, lab):
    expl = asb(proj(SELF, ("parameters", "explainability")))
    a = sends(E, "ScoringDone")
    b = sends(E, "QueryClustercontributionDone")
    ca, da = union([e.cond for e in a])
    cb, db = union([e.cond for e in b])
    both = bor(ca, cb)
    c.ob("done-announced-once", lab, a and da and db and band(ca, cb) == 0 and ca == band(both, bnot(expl)), "the end of scoring must be announced exactly once (at once without explainability); announced under %s" % showb(ca)[:200], where_of(a[0]) if a else None)
    # every completion path
    if lab == "SubScores":
        run = [mk("call", e.fn, *e.args) for e in E.events if e.kind == "call" and e.name == "is_running"]
        rec = [e.res for e in E.events if e.kind == "call" and e.name == "received"]
        if len(set(run)) == 1 and len(set(rec)) == 1:
            want = band(asb(rec[0]), bnot(asb(run[0])))
            c.ob("done-when-complete", lab, no_panic(both) == want, "scoring must end exactly when the last sub-scores have arrived; it ends under %s" % showb(both)[:200])
