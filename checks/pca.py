"""P18 distributed principal components: reduction tree, means, final decomposition."""
import lists
from stats import *
import cells
from cells import Cells, Unknown

HM = "PCAHelperMessage"


def only(v):
    """the message has this variant and no other"""
    r = is_variant(sym("msg"), v)
    for o in ("Setup", "Decomposition", "Means", "Components", "Response"):
        if o != v:
            r = band(r, bnot(is_variant(sym("msg"), o)))
    return r


def alive(E):
    """paths on which nothing panics"""
    r = 1
    for e in E.events:
        if e.loops:
            continue
        if e.kind == "panic":
            r = band(r, bnot(e.cond))
        elif e.kind == "unwrap" and e.args:
            good = bor(is_variant(e.args[0], "Some"), is_variant(e.args[0], "Ok"))
            r = band(r, bor(bnot(e.cond), good))
    return r


class Side:
    """the cluster nodes (Training) or the helper threads of one node (PCAHelper)"""

    def __init__(self, c, kind):
        self.c = c
        self.kind = kind
        self.T = kind == "node"
        self.pca = proj(SELF, ("rotation", "pca")) if self.T else SELF
        self.pp = ("rotation", "pca") if self.T else ()
        self.id = proj(self.pca, ("id",))
        self.r = proj(self.pca, ("r_count",))
        self.peers = proj(SELF, ("cluster_nodes", "nodes")) if self.T else proj(SELF, ("neighbors",))
        self.entry = {}
        self.rec = {}

    def f(self, n):
        return proj(self.pca, (n,))

    def is_msg(self, e, m):
        if not is_send(e):
            return False
        if e.args[1].op != "adt":
            return False      # a kept message handed back
        if self.T:
            return base(e.gargs[-1]) == {"Decomposition": "PCADecompositionMessage", "Means": "PCAMeansMessage", "Final": "PCAComponents"}[m]
        p = e.args[1]
        return p.op == "adt" and p.a[0].split("::")[-1] == HM and p.a[1] == {"Decomposition": "Decomposition", "Means": "Means", "Final": "Response"}[m]

    def count_of(self, msg=None):
        return proj(sym("msg"), ("count",)) if self.T else proj(sym("msg"), ("Decomposition.count",))

    # ---- numbers
    def env(self, ts, N, own, r=None, count=None, means=None):
        env = {self.id: const(own)}
        if r is not None:
            env[self.r] = const(r)
        if count is not None:
            env[self.count_of()] = const(count)
        for _ in range(3):
            for t in ts:
                for x in subterms(t):
                    if is_call(x, "len") and len(x.a) == 2:
                        l = x.a[1]
                        if l is self.peers:
                            env[x] = const(N - 1 if self.T else N)
                        elif not self.T and l.op == "mut" and l.a[2] is self.peers:
                            env[x] = const(N)
                        else:
                            n = self.n_len(l, means)
                            if n is not None:
                                env[x] = const(n)
                    elif means is not None and x.op == "index" and is_call(x.a[0], ("shape", "dim")) and x.a[1] is const(0):
                        n = self.n_len(x.a[0].a[1], means)
                        if n is not None:
                            env[x] = const(n)
        return env

    def n_len(self, l, means):
        l = strip_payload2(l)
        if l is proj(self.f("n"), ("Some.0",)) or l is self.f("n") or l is proj(self.f("column_means"), ("Some.0",)):
            return means
        if is_call(l, "arr1") and l.a[1].op == "array":
            return len(l.a[1].a)
        if is_call(l, "concatenate") and l.a[2].op == "array":
            ns = [self.n_len(x, means) for x in l.a[2].a]
            return None if None in ns else sum(ns)
        if l.op == "field" and l.a[1] == "columns_means" or l.op == "field" and l.a[1] == "Means.columns_means":
            return 1
        return None

    def truth(self, cond, N, own, variant=None, **kw):
        """value of a path condition for given numbers; None if it does not depend on them alone"""
        t = boolt(cond)
        env = self.env([t], N, own, **kw)
        m = {}
        for a in bsupport(cond):
            v = None
            if a.op == "is":
                x, k = a.a[0], a.a[1]
                y = strip_payload2(x)
                if x is sym("msg"):
                    v = (k == variant) if variant else None
                elif is_call(x, "get") and (x.a[1] is self.peers or x.a[1].op == "mut" and x.a[1].a[2] is self.peers):
                    key = tab.value(x.a[2], self.env([x.a[2]], N, own, **kw))
                    if key is not None:
                        here = 0 <= key < N and not (self.T and key == own)
                        v = here if k == "Some" else not here
                elif k in ("Some", "Ok"):
                    fld = (fieldpath(x) or (None,))[-1]
                    if fld == "components":
                        v = False
                    else:
                        v = True
                elif k in ("None", "Err"):
                    v = False
            elif a.op == "exists":
                v = False
            if v is None:
                z = tab.value(boolt(bvar(a)), env)
                v = z if z is None else bool(z)
            if v is not None:
                m[a] = 1 if v else 0
        r = bcompose(cond, m)
        return True if r == 1 else False if r == 0 else None


def strip_payload2(t):
    while True:
        if t.op == "field" and t.a[1] in ("Ok.0",):
            t = t.a[0]
        elif is_call(t, ("clone", "to_owned", "view", "into_dimensionality", "into_shared", "to_shared")) and len(t.a) == 2:
            t = t.a[1]
        elif t.op == "field" and t.a[1] == "Some.0" and t.a[0].op == "call":
            t = t.a[0]
        else:
            return t


def actions(s, E, N, own, variant=None, r=None, count=None, means=None, depth=0):
    """what one turn does: ('send', receiver, count), ('final',), rounds passed; None if not decidable"""
    out = []
    cur = r
    for e in E.events:
        isd, isf = s.is_msg(e, "Decomposition"), s.is_msg(e, "Final")
        rec = e.kind == "call" and not is_send(e) and e.fn in s.rec
        if not (isd or isf or rec):
            continue
        if isf and s.T and not ("own_addr" in (fieldpath(e.args[0]) or ()) or is_call(e.args[0], "address")):
            continue
        v = s.truth(e.cond, N, own, variant, r=r, count=count, means=means)
        if v is None:
            return None, "condition of %s not understood: %s" % (e.name, showb(e.cond)[-160:])
        if not v:
            continue
        if isd:
            g = [x for x in subterms(e.args[0]) if is_call(x, "get")]
            if len(g) != 1:
                return None, "receiver %s" % show(e.args[0], 4)
            kw = dict(r=r, count=count, means=means)
            to = tab.value(g[0].a[2], s.env([g[0].a[2]], N, own, **kw))
            ct = proj(e.args[1], ("count",)) if s.T else proj(e.args[1], ("Decomposition.count",))
            ctv = tab.value(ct, s.env([ct], N, own, **kw))
            if to is None or ctv is None:
                return None, "receiver or count not understood"
            out.append(("send", int(to), int(ctv)))
        elif isf:
            out.append(("final",))
        else:
            if depth > 6:
                return None, "no end of rounds"
            st = e.args[0]
            nr = proj(st, s.pp + ("r_count",))
            nrv = tab.value(nr, s.env([nr], N, own, r=r, count=count, means=means))
            nn = proj(st, s.pp + ("n",))
            nm = means
            if nn is not s.f("n"):
                l = s.n_len(proj(nn, ("Some.0",)), means)
                nm = l if l is not None else means
            if nrv is None:
                return None, "round not understood: %s" % show(nr, 4)
            a, nr2 = actions(s, s.rec[e.fn], N, own, variant, r=int(nrv), means=nm, depth=depth + 1)
            if a is None:
                return None, nr2
            out += a
            cur = nr2 if nr2 is not None else int(nrv)
    if cur == r and count is not None:
        cur = count
    return out, cur


def find_recursion(c, s, Es):
    for E in Es:
        for e in E.events:
            if e.kind == "call" and not is_send(e):
                bs = [b for b in c.p.bodies.values() if b.get("name") == e.name and b["kind"] != "Closure" and (b["path"] == e.fn or b.get("trait") and e.fn.startswith(b["trait"])) and "promoted" not in b["key"] and b.get("blocks")]
                if bs and e.fn not in s.rec and any(contains(a, lambda z: z is SELF) for a in e.args[:1]) and any(x.kind == "call" and x.fn == e.fn for x in c.run(bs[0]).events):
                    s.rec[e.fn] = c.run(bs[0])


def tree(c, s, start, decomp, means, upto):
    """for every number of participants: each factor enters the result once, and the end is recognised"""
    kind = "cluster nodes" if s.T else "helper threads"
    sv, dv, mv = (None, None, None) if s.T else ("Setup", "Decomposition", "Means")
    if s.T and start[1]:
        sv = start[1]
    bad = None
    ends = set()
    for N in range(1, upto + 1):
        # deterministic network: every participant waits for one specific round at a time
        rr, inbox, reached, final, sent = {}, {i: [] for i in range(N)}, {i: {i} for i in range(N)}, 0, {}

        def do(i, acts):
            nonlocal final, bad
            for a in acts:
                if a[0] == "send":
                    if not 0 <= a[1] < N or a[1] == i:
                        bad = bad or "with %d %s, %d sends its factor to %d" % (N, kind, i, a[1])
                        continue
                    if i in sent:
                        bad = bad or "with %d %s, %d sends its factor twice" % (N, kind, i)
                    sent[i] = a[1]
                    inbox[a[1]].append((a[2], i, frozenset(reached[i])))
                else:
                    final += 1
        stop = False
        for i in range(N):
            a, r = actions(s, start[0], N, i, sv, r=0, means=1)
            if a is None:
                bad, stop = bad or r, True
                break
            if N == 1 or i != 0:
                do(i, a)
            elif any(x[0] == "final" for x in a):
                bad = bad or "with %d %s the result is declared complete at once" % (N, kind)
            else:
                do(i, a)
            rr[i] = r
        if stop:
            break
        ch = True
        while ch:
            ch = False
            for i in range(N):
                for m in list(inbox[i]):
                    acc = s.truth(s.accept, N, i, dv, r=rr[i], count=m[0], means=N if i == 0 else 1)
                    if acc is None:
                        bad = bad or "when a factor is taken in is not understood: %s" % showb(s.accept)[-160:]
                        break
                    if not acc:
                        continue
                    inbox[i].remove(m)
                    if i in sent:
                        bad = bad or "with %d %s, %d takes in the factor of %d after it has sent its own" % (N, kind, i, m[1])
                    if reached[i] & m[2]:
                        bad = bad or "with %d %s, factors are counted twice" % (N, kind)
                    reached[i] = reached[i] | m[2]
                    # without all means no end, with all means the end
                    if i == 0 and N > 1:
                        a0, _ = actions(s, decomp, N, i, dv, r=rr[i], count=m[0], means=N - 1)
                        if a0 is None or any(x[0] == "final" for x in a0):
                            bad = bad or "with %d %s the result is declared complete before all means are in" % (N, kind)
                    a, r = actions(s, decomp, N, i, dv, r=rr[i], count=m[0], means=N if i == 0 else 1)
                    if a is None:
                        bad = bad or r
                        break
                    do(i, a)
                    rr[i] = r
                    ch = True
                    # means arriving in this state
                    if i == 0 and means is not None and N > 1:
                        complete = len(reached[0]) == N
                        for k in (1, N - 2, N - 1):
                            if k < 1:
                                continue
                            am, _ = actions(s, means, N, 0, mv, r=rr[0], means=k)
                            want = complete and k == N - 1
                            if am is None or (len(am) > 0) != want or want and am != [("final",)]:
                                bad = bad or "with %d %s, %d factors and %d of %d means in, the last mean %s" % (N, kind, len(reached[0]), k + 1, N, "ends nothing" if not am else "leads to %s" % (am,))
        if bad:
            break
        if reached[0] != set(range(N)) or final != 1 or any(inbox.values()):
            bad = "with %d %s the factors of %s reach the first one, %d results, %d messages left over" % (N, kind, sorted(reached[0]), final, sum(len(x) for x in inbox.values()))
            break
    c.ob("reduction", "%s up to %d" % (kind, upto), bad is None, "every factor must enter the result exactly once: %s" % bad)


def qr_arg(t):
    """X where t is the R factor of X"""
    t = t
    if t.op == "field" and t.a[1] == "1":
        q = strip_payload2(t.a[0])
        if is_call(q, ("qr", "qr_into")) and len(q.a) == 2:
            return q.a[1]
    return None


def nvals(C, t, idx, vals):
    """number of a cell, the atoms' cells set to given numbers"""
    v = C.at(t, idx)
    env = {}
    for x in subterms(v):
        if x.op == "cell":
            env[x] = const(vals(x.a[0], tuple(int(i.a[0]) for i in x.a[1:])))
    return tab.value(v, env)


def own_part(c, s, E, data, inst, when, nrows_ok=True):
    """mean, number of rows and factor of the own rows"""
    fin = self_final(E)
    g = lambda f: restrict(proj(fin, s.pp + (f,)), when)
    R, M, n = (proj(g(f), ("Some.0",)) for f in ("local_r", "column_means", "n"))
    # values before the decisions (they are not changed by them)
    w = {}
    for f in ("local_r", "column_means", "n"):
        for e in E.events:
            if e.kind == "write" and e.extra[1] == s.pp + (f,) and band(e.cond, when) != 0:
                w.setdefault(f, []).append(e)
    for f in ("local_r", "column_means", "n"):
        if not c.ob("own part", "%s: %s set once" % (inst, f), len(w.get(f, [])) == 1 and w[f][0].extra[2].op == "adt", "%s is set at %d places" % (f, len(w.get(f, [])))):
            return
    R, M, n = (proj(w[f][0].extra[2], ("Some.0",)) for f in ("local_r", "column_means", "n"))
    C = Cells(E, {}, {data: (3, 2)})
    bad = None
    mean = lambda j: fdiv(add(add(mk("cell", data, const(0), const(j)), mk("cell", data, const(1), const(j))), mk("cell", data, const(2), const(j))), const(3))
    try:
        if C.shape(M) != (1, 2):
            bad = "shape of the means %s" % (C.shape(M),)
        X = qr_arg(R)
        for j in range(2):
            if bad is None and C.at(M, (0, j)) is not mean(j):
                bad = "mean of column %d is %s" % (j, show(C.at(M, (0, j)), 5)[:120])
            for i in range(3):
                if X is None or C.at(X, (i, j)) is not sub(mk("cell", data, const(i), const(j)), mean(j)):
                    bad = bad or "the factor is taken of %s" % (show(C.at(X, (i, j)), 5)[:120] if X is not None else show(R, 4))
        if C.shape(n) != (1,) or C.at(n, (0,)) is not const(3):
            bad = bad or "number of rows is %s" % show(n, 4)
    except Unknown as u:
        bad = "not understood: %s" % u
    c.ob("own part", inst, bad is None, "means, number and R factor of the centred own rows: %s" % bad)
    return R, M, n


def final_part(c, s, E, inst, variant):
    """global means and final factor from the means, row numbers and the combined factor"""
    ok = False
    fs = [e for e in E.events if s.is_msg(e, "Final")]
    if not c.ob("result", inst + ": sent", bool(fs), "the result is not sent"):
        return
    e = fs[0]
    pay = e.args[1]
    gm = proj(pay, ("means",)) if s.T else proj(pay, ("Response.column_means",))
    # where means, numbers and factor come from in this turn
    st = {}
    for f in ("n", "column_means", "local_r"):
        cand = [x.extra[2] for x in E.events if x.kind == "write" and x.extra[1] == s.pp + (f,) and x.idx < e.idx and band(x.cond, e.cond) != 0 and x.extra[2].op == "adt"]
        st[f] = proj(cand[-1], ("Some.0",)) if cand else proj(s.f(f), ("Some.0",))
    k, d = 2, 3
    C = Cells(E, {}, {st["n"]: (k,), st["column_means"]: (k, d), st["local_r"]: (3, d)})
    NV = (4, 9)

    def vals(a, i):
        if a is st["n"]:
            return NV[i[0]]
        if a is st["column_means"]:
            return (2, 3, 5, 7, 11, 13)[i[0] * 3 + i[1]]
        return (17, 19, 23, 29, 31, 37, 41, 43, 47)[i[0] * 3 + i[1]]
    want = [Fraction(NV[0] * vals(st["column_means"], (0, j)) + NV[1] * vals(st["column_means"], (1, j)), 13) for j in range(d)]
    bad = None
    try:
        if C.shape(gm) != (d,):
            bad = "shape of the means %s" % (C.shape(gm),)
        for j in range(d):
            v = nvals(C, gm, (j,), vals)
            if v is None or v != want[j]:
                bad = bad or "mean of column %d is %s instead of %s" % (j, v, want[j])
    except Unknown as u:
        bad = "not understood: %s" % u
    c.ob("result", inst + ": means", bad is None, "the mean of all rows must weight each part by its rows: %s" % bad, where_of(e))
    # the factor
    bad = None
    if s.T:
        sv = [x for x in subterms(pay) if is_call(x, ("svd", "svd_into"))]
        for ev in E.events:
            if ev.kind == "call" and ev.name in ("svd", "svd_into") and band(ev.cond, e.cond) != 0:
                sv.append(mk("call", ev.fn, *ev.args))
        sv = list(dict.fromkeys(sv))
        if len(sv) != 1:
            bad = "%d decompositions" % len(sv)
            R = None
        else:
            R = sv[0].a[1]
    else:
        R = proj(pay, ("Response.r",))
        nt = proj(pay, ("Response.n",))
        try:
            v = nvals(C, nt, (), vals)
        except Unknown as u:
            v = str(u)
        c.ob("result", inst + ": rows", v == 13, "the number of rows must be the sum over the parts; it is %s" % show(nt, 4), where_of(e))
    X = qr_arg(R) if R is not None else None
    if bad is None and X is None:
        bad = "it is not the factor of a combination: %s" % show(R, 4)
    if bad is None:
        try:
            if C.shape(X) != (k + 3, d):
                bad = "shape %s" % (C.shape(X),)
            else:
                rows = sorted(tuple(nvals(C, X, (i, j), vals) for j in range(d)) for i in range(k + 3))
                sq = (2, 3)
                exp = sorted([tuple(sq[i] * (vals(st["column_means"], (i, j)) - want[j]) for j in range(d)) for i in range(k)] + [tuple(vals(st["local_r"], (i, j)) for j in range(d)) for i in range(3)])
                if rows != exp:
                    bad = "its rows are %s" % ([[str(z) for z in y] for y in rows if y not in exp][:1],)
        except (Unknown, TypeError) as u:
            bad = "not understood: %s" % u
    c.ob("result", inst + ": factor", bad is None, "the last factor must combine the factors with each part's distance from the common mean, weighted with the root of its rows: %s" % bad, where_of(e))


def p18(c):
    cl = Cluster(c)
    T, H = Side(c, "node"), Side(c, "thread")
    b = {"decomp": c.p.handler("Training", "PCADecompositionMessage"), "means": c.p.handler("Training", "PCAMeansMessage"), "resp": c.p.handler("Training", HM), "comp": c.p.handler("Training", "PCAComponents"), "h": c.p.handler("PCAHelper", HM)}
    for k, v in b.items():
        if not c.need(v, "handler " + k):
            return
    pcaf = [x for x in c.p.bodies.values() if x.get("name") == "pca" and x["kind"] != "Closure" and "promoted" not in x["key"] and x.get("blocks") and x.get("trait")]
    if not c.need(pcaf, "function that starts a decomposition"):
        return
    E = {k: c.run(v) for k, v in b.items()}
    E["pca"] = c.run(pcaf[0])
    find_recursion(c, T, [E[k] for k in ("decomp", "means", "resp", "pca")])
    find_recursion(c, H, [E["h"]])
    single = cmp("le", proj(SELF, ("parameters", "n_threads")), const(1), "usize")
    # ---- taking in a factor
    for s, En, nm, v in ((T, E["decomp"], "PCADecompositionMessage", None), (H, E["h"], "Decomposition", "Decomposition")):
        w = [e for e in En.events if e.kind == "write" and e.extra[1] == s.pp + ("local_r",)]
        if v:
            w = [e for e in w if band(e.cond, only(v)) != 0]
        w = put_back(w, s.f("local_r"))
        if not c.ob("factor", nm + ": taken in at one place", len(w) == 1, "%d places" % len(w)):
            return
        s.accept = w[0].cond
        r = proj(sym("msg"), ("r",)) if s.T else proj(sym("msg"), ("Decomposition.r",))
        X = qr_arg(proj(w[0].extra[2], ("Some.0",)))
        X = strip_payload2(X) if X is not None else None
        okx = X is not None and is_call(X, "concatenate") and axis(X.a[1]) == 0 and X.a[2].op == "array" and sorted(x.id for x in X.a[2].a) == sorted(x.id for x in (proj(s.f("local_r"), ("Some.0",)), r))
        c.ob("factor", nm + ": combined", okx, "a received factor must be combined with the own one; it becomes %s" % show(w[0].extra[2], 6)[:200], where_of(w[0]))
        # not taken in: kept unchanged, nothing else
        isv = only(v) if v else 1
        ref = band(bnot(s.accept), isv)
        bufs = [e for e in En.events if e.kind == "write" and e.extra[1][:len(s.pp)] == s.pp and e.extra[1][-1] in ("buffer", "means_buffer") and e.extra[2].op == "mut" and e.extra[2].a[0].split("::")[-1] in ("push", "push_back") and band(e.cond, isv) != 0 and not e.loops]
        kept = 0
        for e in bufs:
            val = e.extra[2].a[3]
            if val is sym("msg") or same_message(val, v):
                kept = bor(kept, e.cond)
        c.ob("early", nm + " kept", bimp(ref, kept) and band(kept, band(s.accept, isv)) == 0, "a factor that cannot be taken in yet must be kept (and only then); kept under %s" % showb(kept)[-200:])
        others = [e for e in En.events if (is_send(e) or e.kind == "write" and e not in bufs) and band(e.cond, ref) != 0 and e.extra != () and not (e.kind == "write" and e.extra[0][0] != "O")]
        c.ob("early", nm + " without effect", not others, "a factor that cannot be taken in yet changes something else", where_of(others[0]) if others else None)
        # kept messages are tried again after each round
        bp = s.pp + (bufs[0].extra[1][-1] if bufs else "buffer",)
        okd, why = drained(s, En, bp, s.accept, cl)
        c.ob("early", nm + " retried", okd, "kept factors must be tried again after each round: %s" % why)
        # a factor counts for the round it is meant for
        okr = [e for e in En.events if e.kind == "write" and e.extra[1] == s.pp + ("r_count",) and (e.extra[2] is s.count_of() or e.extra[2] is add(s.f("r_count"), const(1)) and bimp(e.cond, cmp("eq", s.count_of(), add(s.f("r_count"), const(1)), "usize"))) and band(e.cond, isv) != 0]
        c.ob("factor", nm + ": round", len(okr) == 1 and okr[0].cond == s.accept, "the round must advance with the factor taken in")
    # ---- means
    for s, En, nm, v in ((T, E["means"], "PCAMeansMessage", None), (H, E["h"], "Means", "Means")):
        isv = only(v) if v else 1
        pm, pn = (proj(sym("msg"), ("columns_means",)), proj(sym("msg"), ("n",))) if s.T else (proj(sym("msg"), ("Means.columns_means",)), proj(sym("msg"), ("Means.n",)))
        got = 1
        for f, p in (("column_means", pm), ("n", pn)):
            w = [e for e in En.events if e.kind == "write" and e.extra[1] == s.pp + (f,) and band(e.cond, isv) != 0 and e.extra[2].op == "adt"]
            w = put_back(w, s.f(f))
            okw = len(w) == 1
            if okw:
                x = strip_payload2(proj(w[0].extra[2], ("Some.0",)))
                parts = [strip_payload2(y) for y in x.a[2].a] if is_call(x, "concatenate") and x.a[2].op == "array" else []
                okw = len(parts) == 2 and axis(x.a[1]) == 0 and parts[0] is proj(s.f(f), ("Some.0",)) and (parts[1] is p if f == "column_means" else is_call(parts[1], "arr1") and parts[1].a[1].op == "array" and [y.a[0] if y.op == "tofloat" else y for y in parts[1].a[1].a] == [p])
                got = w[0].cond
            c.ob("means", "%s: %s" % (nm, f), okw, "the part's %s must be appended" % f, where_of(w[0]) if w else None)
        ref = band(isv, bnot(got))
        keep = 0
        for e in En.events:
            if e.kind == "write" and e.extra[1][:len(s.pp)] == s.pp and e.extra[1][-1] in ("buffer", "means_buffer") and not e.loops and e.extra[2].op == "mut" and e.extra[2].a[0].split("::")[-1] in ("push", "push_back") and (e.extra[2].a[3] is sym("msg") or same_message(e.extra[2].a[3], v)):
                keep = bor(keep, band(e.cond, isv))
        c.ob("early", nm + " kept", bimp(ref, keep) and band(keep, got) == 0, "means that cannot be used yet must be kept")
        if s.T:
            want = band(is_variant(s.f("column_means"), "Some"), bnot(is_variant(s.f("components"), "Some")))
            c.ob("early", nm + " of the next column", bimp(got, want), "means may only be added to a decomposition that is under way: they are added under %s" % showb(got)[-200:])
        else:
            c.ob("early", nm + " before the own part", bimp(got, is_variant(s.f("column_means"), "Some")), "means are added before the own part is there")
    # ---- own part and start
    own_part(c, T, E["pca"], sym(data_arg(pcaf[0])), "one thread", single)
    own_part(c, H, E["h"], proj(sym("msg"), ("Setup.data",)), "helper thread", only("Setup"))
    hneigh = proj(self_final(E["h"]), ("neighbors",))
    hn = restrict(hneigh, only("Setup"))
    c.ob("own part", "helper threads known", hn is proj(sym("msg"), ("Setup.neighbors",)) or flat(hn) == [("all", proj(SELF, ("neighbors",))), ("all", proj(sym("msg"), ("Setup.neighbors",)))], "each helper must know all helpers in order; it knows %s" % show(hn, 4))
    # answer of the helpers
    w = {e.extra[1][-1]: e for e in E["resp"].events if e.kind == "write" and e.extra[1][:2] == ("rotation", "pca") and e.extra[2].op == "adt"}
    m = sym("msg")
    C = Cells(E["resp"], {}, {proj(m, ("Response.column_means",)): (3,)})
    okh = True
    try:
        M = proj(w["column_means"].extra[2], ("Some.0",))
        okh = C.shape(M) == (1, 3) and all(C.at(M, (0, j)) is mk("cell", proj(m, ("Response.column_means",)), const(j)) for j in range(3))
        nn = strip_payload2(proj(w["n"].extra[2], ("Some.0",)))
        if is_call(nn, "concatenate") and nn.a[2].op == "array" and len(nn.a[2].a) == 1:
            nn = strip_payload2(nn.a[2].a[0])
        okh = okh and is_call(nn, "arr1") and nn.a[1].op == "array" and list(nn.a[1].a) == [proj(m, ("Response.n",))]
        okh = okh and proj(w["local_r"].extra[2], ("Some.0",)) is proj(m, ("Response.r",))
    except (Unknown, KeyError) as u:
        okh = False
    c.ob("own part", "from the helpers", okh, "means, number of rows and factor of the helpers must be taken over")
    # own means go to the first participant
    for s, En, inst, v, cond in ((T, E["pca"], "one thread", None, single), (T, E["resp"], "several threads", "Response", 1), (H, E["h"], "helper thread", "Setup", only("Setup"))):
        ss = [e for e in En.events if s.is_msg(e, "Means") and band(e.cond, cond) != 0]
        okm = len(ss) == 1 and not ss[0].loops
        if okm:
            e = ss[0]
            g = [x for x in subterms(e.args[0]) if is_call(x, "get")]
            okm = len(g) == 1 and g[0].a[2] is const(0)
            cd = asb(restrict(boolt(e.cond), cond)) if cond != 1 and not v else e.cond
            bad = [(N, i) for N in (1, 2, 3, 5) for i in range(N) if s.truth(cd, N, i, v, r=0, means=1) is not (i != 0)]
            okm = okm and not bad
            pm, pn = (proj(e.args[1], ("columns_means",)), proj(e.args[1], ("n",))) if s.T else (proj(e.args[1], ("Means.columns_means",)), proj(e.args[1], ("Means.n",)))
            wm = [x.extra[2] for x in En.events if x.kind == "write" and x.extra[1] == s.pp + ("column_means",) and x.idx < e.idx and band(x.cond, e.cond) != 0]
            okm = okm and wm and pm is proj(wm[-1], ("Some.0",))
            rows = {"one thread": sym(data_arg(pcaf[0])), "several threads": proj(T.f("data"), ("Some.0",)), "helper thread": proj(sym("msg"), ("Setup.data",))}[inst]
            try:
                okm = okm and Cells(En, {}, {rows: (5, 2), proj(m, ("Response.column_means",)): (2,)}).value(pn) in (5,) or okm and inst == "several threads" and pn is proj(m, ("Response.n",))
            except Unknown:
                okm = False
        c.ob("means", "sent: " + inst, okm, "each participant but the first must send its means and number of rows to the first one", where_of(ss[0]) if ss else None)
    # ---- reduction for any number of participants
    tree(c, T, (E["resp"], "Response"), E["decomp"], E["means"], 17)
    # one thread: the same start
    Tr = E["pca"]
    bad = None
    for N in range(1, 18):
        for i in range(N):
            a, r1 = actions(T, E["resp"], N, i, "Response", r=0, means=1)
            t, r2 = actions_single(T, Tr, N, i, single)
            if a is None or t is None or a != t or r1 != r2:
                bad = bad or "node %d of %d: %s with helpers, %s without" % (i, N, a, t)
    c.ob("reduction", "one thread starts like several", bad is None, "the first step must not depend on the number of threads: %s" % bad)
    tree(c, H, (E["h"], "Setup"), E["h"], E["h"], 17)
    # kept messages are handed back at the start
    for s, En, inst, cond in ((T, E["pca"], "one thread", single), (T, E["resp"], "several threads", only("Response")), (H, E["h"], "helper thread", only("Setup"))):
        for f in ("buffer", "means_buffer"):
            okd, why = drained(s, En, s.pp + (f,), cond, cl)
            c.ob("early", "%s: %s handed back" % (inst, f), okd, "messages kept in %s must be handed back when the own part is there: %s" % (f, why))
    # ---- result
    final_part(c, T, E["pca"], "first node, one thread", None)
    final_part(c, T, E["decomp"], "first node, last factor", None)
    final_part(c, T, E["means"], "first node, last means", None)
    for v in ("Decomposition", "Means", "Setup"):
        ev = [e for e in E["h"].events if H.is_msg(e, "Final") and band(e.cond, only(v)) != 0]
        c.ob("result", "helpers: " + v, len(ev) == 1, "result of the helpers at %d places" % len(ev))
    final_part(c, H, sub_engine(E["h"], only("Decomposition")), "helpers, last factor", "Decomposition")
    final_part(c, H, sub_engine(E["h"], only("Means")), "helpers, last means", "Means")
    for k, En in (("one thread", E["pca"]), ("last factor", E["decomp"]), ("last means", E["means"])):
        components(c, T, En, k, cl)
    for nm, En in list(T.rec.items())[:1]:
        components(c, T, En, "next round", cl)
        final_part(c, T, En, "next round", None)
    # ---- taking over
    fin = self_final(E["comp"])
    for f, g in (("components", "components"), ("global_means", "means")):
        v = proj(fin, ("rotation", "pca", f))
        c.ob("taken over", f, proj(v, ("Some.0",)) is proj(m, (g,)), "%s must be the ones of the message; it is %s" % (f, show(v, 4)))
    ds = [e for e in E["comp"].events if is_send(e) and base(e.gargs[-1]) == "PCADoneMessage"]
    rec = proj(SELF, ("rotation", "pca", "recipient"))
    c.ob("taken over", "goes on", len(ds) == 1 and ds[0].cond == bnot(is_variant(rec, "Some")) and not ds[0].loops, "the next step must follow exactly once", where_of(ds[0]) if ds else None)
    # ---- helper threads and chunks
    pool(c, E["pca"], sym(data_arg(pcaf[0])), single)
    fresh(c, T)
    c.assume.append("QR and SVD of LAPACK compute the decompositions of their arguments; the reduction is tabulated for up to 17 participants")


def data_arg(b):
    return b["locals"][2][1] or "data"


def sub_engine(E, cond):
    class V:
        pass
    v = V()
    v.__dict__.update(E.__dict__)
    v.events = [e for e in E.events if band(e.cond, cond) != 0]
    return v


def actions_single(s, E, N, own, cond):
    """like actions, for the path with one thread"""
    E2 = sub_engine(E, cond)
    evs = []
    for e in E2.events:
        class X:
            pass
        x = X()
        for a in ("kind", "name", "fn", "args", "raw", "gargs", "extra", "idx", "loops", "res"):
            setattr(x, a, getattr(e, a, None))
        x.cond = asb(restrict(boolt(e.cond), cond))
        evs.append(x)
    E2.events = evs
    return actions(s, E2, N, own, None, r=0, means=1)


def same_message(t, v):
    """the message put together again from all of its parts"""
    if not (t.op == "adt" and t.a[1] == v):
        return False
    return all(x is proj(sym("msg"), ("%s.%s" % (v, f),)) for f, x in t.a[2])


def drained(s, E, path, when, cl):
    buf = proj(SELF, path)
    own = lambda e: is_send(e)
    okd, why = drains(E, buf, path, sendpred=own, when=band(when, alive(E)))
    if not okd:
        return okd, why
    for e in E.events:
        if is_send(e) and e.loops and contains(e.args[1], lambda x: x is buf or x.op == "loopvar" and E.loopinfo.get(x, [None])[0] is buf):
            t = e.args[0]
            if s.T:
                if not ("own_addr" in (fieldpath(t) or ()) or is_call(t, "address")):
                    return False, "they go to %s" % show(t, 3)
            else:
                g = [x for x in subterms(t) if is_call(x, "get") or x.op == "index"]
                if not any((x.a[2] if x.op == "call" else x.a[1]) is s.id for x in g):
                    return False, "they go to %s" % show(t, 3)
    return True, ""


def components(c, s, E, inst, cl):
    fs = [e for e in E.events if s.is_msg(e, "Final")]
    cond, _ = union([e.cond for e in fs])
    loops = [e for e in fs if e.loops]
    own = [e for e in fs if not e.loops]
    okp = len(loops) == 1 and len(own) == 1 and loops[0].loops[0] is cl.nodes and len(loops[0].loops) == 1 and loops[0].args[1] is own[0].args[1] and no_panic(loops[0].cond) == no_panic(own[0].cond)
    c.ob("shared", inst, okp, "the same components and means must go to every other node and to this one")
    if not fs:
        return
    w = [e for e in E.events if e.kind == "write" and e.extra[1] == s.pp + ("components",) and e.extra[2].op == "adt"]
    comp = proj(fs[0].args[1], ("components",))
    c.ob("shared", inst + ": components kept", len(w) == 1 and proj(w[0].extra[2], ("Some.0",)) is comp, "the components shared must be the ones found here (they also mark the decomposition as done)")
    # rows of V, each with a sign that makes its first entry non-negative
    src = comp
    why = None
    if comp.op == "loopvar":
        init, step, lid = E.loopinfo[comp]
        src = init
        why = signs(E, comp, init, step, lid)
        c.ob("components", inst + ": sign", why is None, "each component must be turned so that its first entry is not negative: %s" % why)
    elif comp.op == "mut" and comp.a[0].endswith(("axis_iter_mut", "outer_iter_mut", "rows_mut")):
        # row by row in place: the rows are all visited, and the turn must look at the first entry of the row
        src = next((x for x in comp.a if isinstance(x, T) and nd_slice(x) is not None), comp)
        heads = [e for e in E.events if e.kind == "index" and e.args[0].op == "elem" and is_call(e.args[0].a[0], ("axis_iter_mut", "outer_iter_mut", "rows_mut")) and contains(e.args[0].a[0], lambda z: z is src)]
        ok = bool(heads) and all(h.args[1] is const(0) for h in heads) and (not comp.a[0].endswith("axis_iter_mut") or axis(comp.a[-1]) == 0)
        c.ob("components", inst + ": sign", ok, "each component must be turned so that its first entry is not negative")
    else:
        c.ob("components", inst + ": sign", False, "each component must be turned so that its first entry is not negative: it is %s" % show(comp, 5)[:200])
    src = strip_payload2(src)
    sl = nd_slice(src)
    okc = sl is not None
    if okc:
        a, rs = sl
        r0 = rng(rs[0], sym("ALL"))
        r1 = rng(rs[1], sym("ALL")) if len(rs) == 2 else None
        v = strip_payload2(a)
        ok_v = v.op == "field" and v.a[1] in ("2", "2.Some.0") or a.op == "field"
        sv = [x for x in subterms(a) if is_call(x, ("svd", "svd_into"))]
        okc = r0 == (const(0), proj(s.pca, ("n_components",))) and r1 == (const(0), sym("ALL")) and len(sv) == 1 and contains(a, lambda z: z.op == "field" and z.a[1] == "2") and len(sv[0].a) == 4 and sv[0].a[3] is TRUE
    c.ob("components", inst, okc, "the components must be the first rows of V^T of the last factor; they are %s" % show(src, 5)[:200])


def put_back(w, cur):
    """writes without those that only take a value out before a new one is put in"""
    isnone = lambda e: e.extra[2].op == "adt" and e.extra[2].a[1] == "None"
    return [e for k, e in enumerate(w) if not (isnone(e) and any(not isnone(x) and bimp(band(e.cond, is_variant(cur, "Some")), x.cond) for x in w[k + 1:]))]


def signs(E, lv, init, step, lid):
    """the loop over the rows that turns the sign"""
    src = E.lsrc.get(lid)
    if src is None or src.op != "adt" or proj(src, ("start",)) is not const(0) or not (proj(src, ("end",)).op == "index" and proj(src, ("end",)).a[1] is const(0)):
        return "not all rows are visited"
    i = elem(src)
    first = [a for a in bsupport(step.a[0]) if True] if step.op == "ite" else []
    if step.op != "ite":
        return "step %s" % show(step, 4)
    cells_ = lambda a: [x for x in subterms(a) if x.op == "index"]
    head = mk("index", lv, mk("array", i, const(0)))
    ge = cmp("le", const(0), head, "f32")
    le = cmp("lt", head, const(0), "f32")
    if step.a[0] == ge:
        keep, turn = step.a[1], step.a[2]
    elif step.a[0] == bnot(ge) or step.a[0] == le:
        keep, turn = step.a[2], step.a[1]
    else:
        return "turned under %s" % showb(step.a[0])[:150]
    if keep is not lv or turn.op != "loopvar" or turn not in E.loopinfo:
        return "rows that are right already are changed, or the others are not"
    in2, st2, lid2 = E.loopinfo[turn]
    s2 = E.lsrc.get(lid2)
    if in2 is not lv or s2 is None or s2.op != "adt" or proj(s2, ("start",)) is not const(0) or not (proj(s2, ("end",)).op == "index" and proj(s2, ("end",)).a[1] is const(1)):
        return "not all columns are turned"
    j = elem(s2)
    cell = mk("array", i, j)
    want = update(turn, (("ix", cell),), mul(const(-1), proj(turn, (("ix", cell),))))
    if st2 is not want:
        return "an entry becomes %s" % show(st2, 5)[:150]
    return None


def pool(c, E, data, single):
    """chunks of rows for the helper threads"""
    nt = proj(SELF, ("parameters", "n_threads"))
    ss = [e for e in E.events if is_send(e) and e.args[1].op == "adt" and e.args[1].a[1] == "Setup"]
    if not c.ob("threads", "started", len(ss) == 1 and len(ss[0].loops) == 1 and ss[0].cond == bnot(single), "each helper gets its rows once, with more than one thread: %d places" % len(ss)):
        return
    e = ss[0]
    z = e.loops[0]
    okz = z.op == "zip"
    ch = next((x for x in z.a if is_call(x, "axis_chunks_iter")), None) if okz else None
    hp = next((x for x in z.a if x is not ch), None) if okz else None
    okz = ch is not None and soft(ch.a[1]) is data and axis(ch.a[2]) == 0 and soft(proj(e.args[1], ("Setup.data",))) is elem(ch) or ch is not None and strip_view(proj(e.args[1], ("Setup.data",))) is elem(ch)
    c.ob("threads", "rows", okz, "every helper must get a chunk of the rows; it gets %s" % show(proj(e.args[1], ("Setup.data",)), 4), where_of(e))
    if not okz:
        return
    c.ob("threads", "receiver", strip_payload2(e.args[0]) is elem(hp), "chunk k must go to helper k", where_of(e))
    # helper k has the id k, and their number fits the chunks
    q = bare(lists.collected(E, hp))
    okq = q.op == "seq" and asb(q.a[2]) == 1 and q.a[0].op == "adt" and proj(q.a[0], ("start",)) is const(0)
    if not c.ob("threads", "helpers", okq, "the helpers are %s" % show(hp, 4)):
        return
    cnt, size = proj(q.a[0], ("end",)), ch.a[3]
    bad = None
    for rows in (1, 2, 3, 5, 7, 8, 16, 17, 30):
        for th in (2, 3, 4, 7, 8):
            C = Cells(E, {nt: const(th)}, {data: (rows, 2)})
            try:
                k, n = C.num(size), C.num(cnt)
                if k < 1 or n != -(-rows // k):
                    bad = bad or "%d rows, %d threads: %d helpers for chunks of %s" % (rows, th, n, k)
                if n > th:
                    bad = bad or "%d helpers with %d threads" % (n, th)
            except Unknown as u:
                bad = bad or "not understood: %s" % u
    c.ob("threads", "as many helpers as chunks", bad is None, "the helpers wait for one factor each: %s" % bad)
    ids = [x for x in subterms(q.a[1]) if x is elem(q.a[0])]
    idok = False
    for b in c.p.bodies.values():
        pass
    cbs = [v for k, v in getattr(E, "cbres", {}).items()] if isinstance(getattr(E, "cbres", None), dict) else list(getattr(E, "cbres", []) or [])
    blds = [x for t in cbs for x in ([t] if isinstance(t, T) else [y for y in t if isinstance(y, T)] if isinstance(t, (tuple, list)) else []) if x.op == "adt" and x.a[0].endswith("PCAHelper")]
    got = [proj(x, ("id",)) for x in blds] or [proj(x, ("id",)) for x in subterms(q.a[1]) if x.op == "adt" and x.a[0].endswith("PCAHelper")]
    c.ob("threads", "ids", bool(got) and all(g is elem(q.a[0]) for g in got), "helper k must have the id k; ids are %s" % [show(g, 3) for g in got])
    rc = [proj(x, ("r_count",)) for x in blds]
    nb = lists.collected(E, proj(e.args[1], ("Setup.neighbors",)))
    nq = bare(nb)
    okn = nq.op == "seq" and asb(nq.a[2]) == 1 and bare(soft(nq.a[0])) is q or bare(nb) is q
    c.ob("threads", "neighbors", okn, "every helper must know all helpers in the order of their ids; it knows %s" % show(nb, 5)[:200], where_of(e))


def fresh(c, s):
    """a new column starts from a clean state, with the messages kept so far"""
    bs = [b for b in c.p.bodies.values() if b.get("name") == "run_pca" and b["kind"] != "Closure" and "promoted" not in b["key"] and b.get("blocks")]
    if not c.need(bs, "run_pca"):
        return
    E = c.run(bs[0], lambda x: x.get("name") == "pca" and x.get("trait") is not None, "pcaopaque")
    es = [e for e in E.events if e.kind == "call" and e.name == "pca"]
    if not c.ob("next column", "started", len(es) == 1 and not es[0].loops and no_panic(es[0].cond) == 1, "the decomposition is started at %d places" % len(es)):
        return
    st = es[0].args[0]
    for f in ("buffer", "means_buffer"):
        v = proj(st, ("rotation", "pca", f))
        c.ob("next column", f + " kept", v is s.f(f), "messages that arrived early must survive; %s becomes %s" % (f, show(v, 4)))
    for f, w in (("local_r", NONE), ("column_means", NONE), ("components", NONE), ("n", NONE)):
        v = proj(st, ("rotation", "pca", f))
        c.ob("next column", f, is_variant(v, "Some") == 0, "%s of the column before must be gone; it is %s" % (f, show(v, 4)))
    v = proj(st, ("rotation", "pca", "r_count"))
    c.ob("next column", "round", v is const(0) or is_call(v, "default"), "rounds start again at 0; r_count is %s" % show(v, 4))
    for f in ("id", "n_components"):
        c.ob("next column", f, proj(st, ("rotation", "pca", f)) is s.f(f), "%s must stay" % f)
