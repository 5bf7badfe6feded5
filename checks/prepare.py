"""P26 preparation of the data: started when the statistics are known, every column once, then the training gets the data once."""
from start import *
from sim import simulate, num, value, consts_in, Unknown
import cells

DM = "DataManager"
PP = ("preprocessing", "Some.0")


def col_counts(t):
    """terms that stand for the number of columns of the data"""
    out = set()
    for x in subterms(t):
        if x.op == "call" and cells.name(x) in ("ncols", "len_of", "shape", "dim", "raw_dim"):
            out.add(x)
        elif x.op in ("index", "idx") or (x.op == "call" and cells.name(x) == "index"):
            out.add(x)
    return out


def stats_known(c):
    """both results are stored, and the one that arrives last starts the preparation"""
    runs = {}
    S = {k: bvar(mk("is", proj(SELF, ("dataset_stats", k)), "Some")) for k in ("min_col", "max_col", "std_col", "n")}
    for m, own, other in (("MinMaxDoneMessage", {"min_col": "min", "max_col": "max"}, ("std_col", "n")), ("StdDoneMessage", {"std_col": "std", "n": "n"}, ("min_col", "max_col"))):
        b = c.p.handler(DM, m)
        if not c.need(b, "handler of " + m):
            return None
        E = c.run(b, None, "p26")
        runs[m] = E
        fin = self_final(E)
        for f, k in own.items():
            v = proj(fin, ("dataset_stats", f))
            c.ob("statistics", "%s: %s kept" % (m, f), v.op == "adt" and v.a[1] == "Some" and proj(v, ("Some.0",)) is proj(sym("msg"), (k,)), "%s must be stored: %s" % (f, show(v, 4)[:150]))
        tot = 0
        for e in sends(E, "PreprocessColumnMessage"):
            # whether there is a column at all is judged below
            cd = no_panic(e.cond)
            for at in bsupport(cd):
                if not any(at is y for x in S.values() for y in bsupport(x)):
                    cd = bexists(cd, lambda z, at=at: z is at)
            tot = bor(tot, cd)
        # either statistic of the other result stands for both: they are stored together
        alt = {band(*[S[k] for k in ks]) for ks in (other, other[:1], other[1:])}
        c.ob("started", m, tot in alt, "after %s the columns must be prepared exactly if the other statistics are there already: they are if %s" % (m, showb(tot)[:200]))
    return runs


def columns(c, runs):
    b = c.p.handler(DM, "ProcessedColumnMessage")
    if not c.need(b, "handler of ProcessedColumnMessage"):
        return
    H = c.run(b, None, "p26")
    known = [bvar(mk("is", proj(SELF, ("dataset_stats", k)), "Some")) for k in ("min_col", "max_col", "std_col", "n")]
    TH = proj(SELF, ("parameters", "n_threads"))
    for m, E in runs.items():
        bad = None
        st0 = restrict_deep(proj(self_final(E), ("preprocessing",)), band(*known))
        if not c.ob("columns", m + ": set up", st0.op == "adt" and st0.a[1] == "Some" and proj(st0, ("Some.0",)).op == "adt", "the state of the preparation must be set up: %s" % show(st0, 4)[:150]):
            continue
        st0 = proj(st0, ("Some.0",))
        fields = list(dict(st0.a[2]))
        first = sends(E, "PreprocessColumnMessage")
        src = {proj(SELF, ("data", "Some.0"))}
        n_states = 0
        # beyond every constant the code compares with
        big = {k + 1 for X in (E, H) for t in [st0] + [x for e in sends(X, "PreprocessColumnMessage") + sends(X, "PreprocessingDoneMessage") for x in list(e.loops) + list(e.args[1:]) + [boolt(e.cond)]] for k in consts_in(t) if k <= 300}
        for N, ths in [(1, (1, 2, 8)), (2, (1, 2, 3, 8)), (3, (1, 2, 3, 8)), (5, (1, 2, 3, 8))] + [(n, (1, 3, n)) for n in sorted(big)]:
            for T_ in ths:
                env0 = {TH: const(T_)}
                for t in [st0] + [x for e in first for x in list(e.loops) + list(e.args)] + [boolt(e.cond) for e in first if e.cond not in (0, 1)]:
                    for x in col_counts(t):
                        if any(y in src for y in subterms(x)) and is_ncols(x):
                            env0[x] = const(N)
                for a in known:
                    for at in bsupport(a):
                        env0[at] = boolt(1)
                try:
                    bad = bad or bfs(c, E, H, first, st0, fields, env0, N, T_, TH)
                except Unknown as u:
                    bad = bad or "not understood: %s" % u
                n_states += 1
        c.ob("columns", m, bad is None, "every column must be prepared once and then the preparation reported done once: %s" % bad, where_of(first[0]) if first else None)
    for e in sends(H, "PreprocessingDoneMessage"):
        a = e.args[0]
        c.ob("columns", "done: recipient", is_call(a, "address") and a.a[1] is sym("ctx"), "the end must be reported to the data manager itself: %s" % show(a, 3)[:120], where_of(e))


def is_ncols(x):
    if x.op == "call" and cells.name(x) == "ncols":
        return True
    if x.op == "call" and cells.name(x) == "len_of":
        return cells.axis(x.a[2]) == 1
    if x.op in ("index", "idx") or (x.op == "call" and cells.name(x) == "index"):
        k = x.a[-1]
        return k is const(1)
    return False


def bfs(c, E, H, first, st0, fields, env0, N, T_, TH):
    evs, env = simulate(E, first, env0)
    start = {}
    for f in fields:
        v = value(proj(st0, (f,)), env)
        if v is not None:
            start[f] = v
    cols = [int(num(proj(e.args[1], ("column",)), v)) for e, v in evs]
    hs = sends(H, "PreprocessColumnMessage") + sends(H, "PreprocessingDoneMessage")
    state, out, answered = start, list(cols), 0
    for step in range(N + 3):
        if answered == len(out):
            return "with %d columns and %d threads nothing is left to wait for after %d columns, and the end was not reported" % (N, T_, answered)
        answered += 1
        env = {TH: const(T_)}
        env.update({proj(SELF, PP + (f,)): const(v) for f, v in state.items()})
        evs, env = simulate(H, hs, env)
        fin = proj(self_final(H), PP)
        done = [e for e, _ in evs if msg_type(e) == "PreprocessingDoneMessage"]
        more = [int(num(proj(e.args[1], ("column",)), v)) for e, v in evs if msg_type(e) != "PreprocessingDoneMessage"]
        if done:
            if sorted(out) != list(range(N)) or answered != N or len(done) != 1 or more:
                return "with %d columns and %d threads the end is reported %d times after columns %s were handed out and %d came back" % (N, T_, len(done), out + more, answered)
            return None
        out += more
        state = {f: num(restrict_deep(proj(fin, (f,)), 1), env) for f in state}
        if len(out) > N:
            return "with %d columns and %d threads the columns %s are handed out" % (N, T_, out)
    return "with %d columns and %d threads the end is never reported" % (N, T_)


def helper(c):
    b = c.p.handler("PreprocessorHelper", "PreprocessColumnMessage")
    if c.need(b, "handler of PreprocessColumnMessage"):
        E = c.run(b, None, "p26")
        ss = sends(E, "ProcessedColumnMessage")
        ok = len(ss) == 1 and not ss[0].loops and no_panic(ss[0].cond) == 1 and ss[0].args[0] is proj(sym("msg"), ("source",))
        c.ob("columns", "answered", ok, "every column must be answered once, to whoever asked", where_of(ss[0]) if ss else None)
        if ok:
            c.ob("columns", "answered: which", proj(ss[0].args[1], ("column",)) is proj(sym("msg"), ("column",)), "the answer must name its column", where_of(ss[0]))


def untouched(c):
    """only the reader sets the data; preparing it does not change it"""
    ok = {"LocalReadDataMessage", "DataPartitionMessage"}
    n = 0
    for b in c.p.bodies.values():
        if b.get("trait") != "actix::Handler" or b["kind"] == "Closure" or base(b.get("self_ty") or "") != DM:
            continue
        m = base(b["trait_args"][1])
        if m in ok:
            continue
        E = c.run(b, None, "p26")
        n += 1
        c.ob("data", m, proj(self_final(E), ("data",)) is proj(SELF, ("data",)), "%s must leave the data as it was read: %s" % (m, show(proj(self_final(E), ("data",)), 4)[:150]))
    c.floor("handlers of the data manager", n, 5)


def p26(c):
    runs = stats_known(c)
    if runs:
        columns(c, runs)
    helper(c)
    untouched(c)
