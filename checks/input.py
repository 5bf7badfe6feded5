"""P15 input: rows, partitions and columns."""
from edges import *
import tab

HLEN = "std::collections::HashMap::len"

SOFT = ("clone", "iter", "into_iter", "as_str", "as_slice", "borrow", "as_ref", "copied", "cloned", "to_vec", "to_owned", "by_ref")


def soft(t):
    while t.op == "call" and t.a[0].split("::")[-1] in SOFT and len(t.a) == 2:
        t = t.a[1]
    return t


def opened(t, path):
    """a reader over the file at path, from its start"""
    fs = [x for x in subterms(t) if x.op == "call" and x.a[0].split("::")[-1] == "open"]
    return len(fs) == 1 and soft(fs[0].a[1]) is path


def records_of(t, path):
    """t: the data records of the csv file (header not among them), none left out"""
    t = soft(t)
    if not is_call(t, ("records", "into_records")) or not opened(t, path):
        return False
    hs = [x for x in subterms(t) if x.op == "call" and x.a[0].split("::")[-1] == "has_headers" and len(x.a) == 3]
    if any(asb(x.a[2]) != 1 for x in hs):
        return False
    # options that make the reader drop or merge rows
    return not any(x.op == "call" and x.a[0].split("::")[-1] in ("comment", "terminator", "flexible", "skip", "step_by", "take", "filter") for x in subterms(t))


def leaves(ts, cond, C0):
    """cases of a tuple of gated values: [(cond, values)]"""
    out = []

    def go(vals, cd):
        if band(cd, C0) == 0:
            return
        for i, v in enumerate(vals):
            if v.op == "ite":
                go(vals[:i] + [v.a[1]] + vals[i + 1:], band(cd, v.a[0]))
                go(vals[:i] + [v.a[2]] + vals[i + 1:], band(cd, bnot(v.a[0])))
                return
        out.append((cd, vals))
    go(list(ts), cond)
    return out


def any_at(t, nodes, key, addr):
    """the address of cluster node `key`, be it a peer or this node"""
    g = mk("call", "std::collections::HashMap::get", nodes, key)
    has = is_variant(g, "Some")
    r, l = restrict(t, has), restrict(t, bnot(has))
    return r.op == "adt" and r.a[1] == "Remote" and proj(r, ("0",)) is proj(g, ("Some.0",)) and l.op == "adt" and l.a[1] == "Local" and is_call(proj(l, ("0",)), "address")


def reading(c):
    b = c.p.handler("DataManager", "LoadDataMessage")
    if not c.need(b, "handler of LoadDataMessage"):
        return
    E = c.run(b, opaque_other(b), "inp")
    msg = sym("msg")
    role = proj(SELF, ("parameters", "role"))
    path = proj(role, ("Main.data_path", "Some.0")) if False else proj(proj(role, ("Main.data_path",)), ("Some.0",))
    nodes = proj(msg, ("nodes", "nodes"))
    fin = self_final(E)
    c.ob("cluster", "taken over", proj(fin, ("cluster_nodes",)) is proj(msg, ("nodes",)), "the cluster nodes of the message must be taken over")
    sends = [e for e in E.events if e.kind == "call" and e.name in ("do_send", "try_send", "send") and base(e.gargs[-1]) == "DataPartitionMessage" and not is_call(e.args[0], "address")]
    inl = [e for e in sends if e.loops]
    end = [e for e in sends if not e.loops]
    if not c.ob("rows", "sent", len(inl) == 1 and len(end) == 1 and len(inl[0].loops) == 1, "partitions must be sent at one place while reading and one after the last row; found %d and %d" % (len(inl), len(end))):
        return
    s1, s2 = inl[0], end[0]
    src = s1.loops[0]
    c.ob("rows", "all records", records_of(src, path), "rows must be all data records of the input file; they are %s" % show(src, 6), where_of(s1))
    lid = None
    row = proj(elem(src), ("Ok.0",))
    fields = lambda t: collects_all(t, row)
    # state of the reading loop
    fl = flat(proj(s2.args[1], ("data",)))
    if not c.ob("rows", "rest sent", fl is not None and len(fl) == 2 and all(k == "all" for k, _ in fl) and all(v in E.loopinfo for _, v in fl), "after the last row the collected rows and overlap must be sent, in this order; sent is %s" % show_flat(fl), where_of(s2)):
        return
    B, O = fl[0][1], fl[1][1]
    gets = [x for x in subterms(s1.args[0]) if x.op == "call" and x.a[0].split("::")[-1] == "get" and x.a[1] is nodes]
    keys = {x.a[2] for x in gets}
    if not c.ob("rows", "receiver", len(keys) == 1 and list(keys)[0] in E.loopinfo and any_at(s1.args[0], nodes, list(keys)[0], None), "a partition must go to the node whose turn it is; it goes to %s" % show(s1.args[0], 5), where_of(s1)):
        return
    P = list(keys)[0]
    c.ob("rows", "last receiver", any_at(s2.args[0], nodes, P, None), "the last partition must go to the next node; it goes to %s" % show(s2.args[0], 5), where_of(s2))
    c.ob("rows", "nothing collected at first", is_empty_list(E.loopinfo[B][0]) and is_empty_list(E.loopinfo[O][0]) and E.loopinfo[P][0] is const(0), "reading must start with nothing collected and the first node")
    # contexts
    isok = is_variant(elem(src), "Ok")
    more = bvar(mk("is", mk("iternext", src), "Some"))
    C = band(isok, more)
    reads = band(bnot(is_variant(role, "Sub")), is_variant(proj(role, ("Main.data_path",)), "Some"))
    C = band(C, reads)
    # rows that cannot be read are fatal
    bad = band(reads, band(more, bnot(isok)))
    fatal = False
    for e in E.events:
        if e.kind == "panic":
            pc = e.cond
            for at in bsupport(pc):
                # leaving the loop with a panic: some row satisfies the inner condition
                if at.op == "exists" and at.a[0] is src and bimp(band(more, bnot(isok)), asb(at.a[1])):
                    pc = bexists(pc, lambda a: a is at)
            if pc != e.cond and bimp(reads, pc) or bimp(bad, pc):
                fatal = True
        if e.kind == "unwrap" and e.args and e.args[0] is elem(src):
            fatal = True
    c.ob("rows", "unreadable row is fatal", fatal, "a row that cannot be read must end the run; it is passed over", where_of(s1))
    if any(E.loopinfo[x][1] is None for x in (B, O, P)):
        c.ob("rows", "loop", False, "what reading does with a row is not understood", where_of(s1))
        return
    lens = {}
    nt = [x for t in (E.loopinfo[B][1], E.loopinfo[O][1], E.loopinfo[P][1], s1.args[0]) for x in subterms(t) if x.op == "call" and x.a[0].split("::")[-1] == "count" and records_of(x.a[1], path)]
    nt += [x for e in (s1,) for at in bsupport(e.cond) for x in subterms(at) if x.op == "call" and x.a[0].split("::")[-1] == "count" and records_of(x.a[1], path)]
    peers = mk("call", HLEN, nodes)
    pl = proj(SELF, ("parameters", "pattern_length"))
    cases = leaves([E.loopinfo[B][1], E.loopinfo[O][1], E.loopinfo[P][1]], 1, C)
    kinds = []
    for cd, (b_, o_, p_) in cases:
        fb, fo = flat(b_), flat(o_)
        k = None
        one = lambda f, pre: f is not None and f[:-1] == pre and f and f[-1][0] == "one" and fields(f[-1][1])
        if one(fb, [("all", B)]) and fo == [("all", O)] and p_ is P:
            k = "own"
        elif fb == [("all", B)] and one(fo, [("all", O)]) and p_ is P:
            k = "overlap"
        elif one(fb, [("all", O)]) and fo == [] and p_ is add(P, const(1)):
            k = "send"
        kinds.append((cd, k, (show_flat(fb), show_flat(fo), show(p_, 4))))
    f1 = flat(proj(s1.args[1], ("data",)))
    c.ob("rows", "partition content", f1 == [("all", B), ("all", O)], "a partition must be the collected rows followed by the overlap; it is %s" % show_flat(f1), where_of(s1))
    # grid over reachable states
    lenof = lambda l: [x for x in alllens if x.a[1] is l]
    alllens = {x for cd, _, _ in kinds for at in bsupport(cd) for x in subterms(at) if x.op == "call" and x.a[0].split("::")[-1] == "len"} | {x for at in bsupport(s1.cond) for x in subterms(at) if x.op == "call" and x.a[0].split("::")[-1] == "len"}
    emps = {x for cd, _, _ in kinds for at in bsupport(cd) for x in subterms(at) if x.op == "call" and x.a[0].split("::")[-1] == "is_empty"}
    npts = 0
    fail = None
    ts = [(boolt(asb(restrict(boolt(cd), C))), k, d) for cd, k, d in kinds]
    sc = boolt(asb(restrict(boolt(s1.cond), C)))
    for N in (1, 2, 3, 4):
        for n in range(0, 15):
            L = n // N
            for ov in (1, 2, 3):
                if N > 1 and ov >= L:
                    continue
                for p in range(N):
                    last = p == N - 1
                    for lb in range(0, L + 1):
                        for lo in range(0, (n - L * N if last else ov) + 1 if lb == L else 1):
                            if N == 1 and lo > 0:
                                continue
                            done = p * L + lb + lo if True else 0
                            if done >= n:
                                continue
                            env = {peers: const(N - 1), pl: const(ov + 1), P: const(p), proj(SELF, ("parameters", "n_cluster_nodes")): const(N)}
                            for x in nt:
                                env[x] = const(n)
                            for x in lenof(B):
                                env[x] = const(lb)
                            for x in lenof(O):
                                env[x] = const(lo)
                            for x in emps:
                                if x.a[1] is B:
                                    env[x] = boolt(1 if lb == 0 else 0)
                                if x.a[1] is O:
                                    env[x] = boolt(1 if lo == 0 else 0)
                            want = "own" if lb < L else "overlap" if lo < (n - L * N if last else ov) else "send"
                            npts += 1
                            st = "with %d rows, %d nodes, overlap %d: after %d rows and %d overlap rows for node %d" % (n, N, ov, lb, lo, p)
                            hit = []
                            for t, k, d in ts:
                                v = tab.value(t, env)
                                if v is None:
                                    fail = fail or ("%s the decision is not a function of counts: %s" % (st, show(subst(t, env), 6)))
                                elif v:
                                    hit.append((k, d))
                            if not fail and len(hit) != 1:
                                fail = "%s %d cases apply" % (st, len(hit))
                            if not fail and hit[0][0] != want:
                                fail = "%s the next row must be used as '%s'; collected rows, overlap and node become %s" % (st, want, hit[0][1])
                            sv = tab.value(sc, env)
                            if not fail and sv != (want == "send"):
                                fail = "%s a partition must%s be sent" % (st, "" if want == "send" else " not")
                            if fail:
                                break
                        if fail:
                            break
                    if fail:
                        break
                if fail:
                    break
    c.ob("rows", "partition bounds", fail is None, fail or "", where_of(s1))
    c.ob("rows", "states tabulated", npts > 500 or fail is not None, "only %d states" % npts)
    # early partitions
    okd, why = drains(E, proj(SELF, ("partition_buffer",)), ("partition_buffer",), when=bnot(reads)) if True else (True, "")
    c.ob("early partitions", "taken up again", okd, "partitions that came before the cluster was complete must be processed: %s" % why)


def bexists_more(b, src):
    return bexists(b, lambda a: a.op == "is" and a.a[0].op == "iternext")


def opaque_other(b):
    return lambda x: x.get("trait") == "actix::Handler" and x is not b


def collects_all(t, row):
    """all values of a row, in order"""
    t = soft(t)
    if t is row:
        return True
    if t.op == "collect":
        t = soft(t.a[0])
    if t is row:
        return True
    if t.op == "seq":
        if asb(t.a[2]) != 1 or soft(t.a[0]) is not row:
            return False
        v = t.a[1]
        while v.op == "call" and v.a[0].split("::")[-1] in SOFT + ("to_string", "into", "from") and len(v.a) == 2:
            v = v.a[1]
        return v is elem(t.a[0])
    return False


def col_range(t):
    """(values, from, to) if t goes over values[from..to]"""
    t = soft(t)
    if t.op == "adt" and base(t.a[0]) == "FromTo":
        d = dict(t.a[2])
        it = d["iter"]
        if it.op == "enumerate" and is_call(it.a[0], "skip") and it.a[0].a[2] is d["from"]:
            return soft(it.a[0].a[1]), d["from"], d["to"]
    if t.op in ("slice", "index") or is_call(t, ("index", "slice")):
        r = t.a[-1]
        if r.op == "adt" and r.a[0].endswith("Range"):
            d = dict(r.a[2])
            return soft(t.a[-2]), d["start"], d["end"]
    if is_call(t, "take") and len(t.a) == 3 and is_call(soft(t.a[1]), "skip"):
        s = soft(t.a[1])
        return soft(s.a[1]), s.a[2], add(s.a[2], t.a[2])
    if is_call(t, "skip") and len(t.a) == 3 and is_call(soft(t.a[1]), "take"):
        s = soft(t.a[1])
        return soft(s.a[1]), t.a[2], s.a[2]
    return None


def check_fromto(c):
    """the range iterator of the code base yields items from..to of the underlying iterator"""
    b = [b for b in c.p.bodies.values() if b.get("name") == "next" and base(b.get("self_ty") or "").startswith("FromTo") and b["kind"] != "Closure"]
    if not b:
        return
    E = c.run(b[0])
    r = E.ret
    it = proj(SELF, ("iter",))
    nx = [x for x in subterms(r) if x.op == "call" and x.a[0].split("::")[-1] == "next" and x.a[1] is it]
    okk = False
    if nx:
        n = nx[0]
        has = is_variant(n, "Some")
        i = proj(n, ("Some.0", "0"))
        want = band(has, cmp("lt", add(i, proj(SELF, ("from",))), proj(SELF, ("to",)), "usize"))
        v = proj(restrict(r, want), ("Some.0",))
        okk = is_variant(r, "Some") == want and v is proj(n, ("Some.0", "1"))
    c.ob("column range", "FromTo", okk, "the range iterator must yield the items from..to; it yields %s" % show(r, 7))


def partition(c):
    b = c.p.handler("DataManager", "DataPartitionMessage")
    if not c.need(b, "handler of DataPartitionMessage"):
        return
    E = c.run(b, opaque_other(b), "inp")
    data = proj(sym("msg"), ("data",))
    fin = self_final(E)
    cl = Cluster(c)
    conn = cmp("eq", cl.n, cl.n_param, "usize")
    ch = changed_paths(restrict(fin, bnot(conn)), SELF)
    v = ch.get(("partition_buffer",))
    c.ob("early partitions", "kept", list(ch) == [("partition_buffer",)] and flat(v) == [("all", proj(SELF, ("partition_buffer",))), ("one", sym("msg"))], "a partition that arrives before the cluster is complete must be kept and have no other effect; it changes %s" % {".".join(k): show(x, 3) for k, x in ch.items()})
    early = [e for e in E.events if e.kind == "call" and e.name in ("do_send", "try_send", "send", "notify") and band(e.cond, bnot(conn)) != 0]
    c.ob("early partitions", "not processed", not early, "an early partition must wait", where_of(early[0]) if early else None)
    d = restrict(proj(fin, ("data",)), conn)
    d = proj(d, ("Some.0",))
    x = d
    if x.op == "field" and x.a[1] == "Ok.0":
        x = x.a[0]
    if not c.ob("values", "shape", is_call(x, ("into_shape", "from_shape_vec", "into_shape_with_order", "to_shape", "reshape")), "the partition's values must be laid out row by row; data becomes %s" % show(d, 5)):
        return
    args = [y for y in x.a[1:] if isinstance(y, T)]
    vals = [y for y in args if y.op in ("collect", "flat", "seq", "loopvar")]
    dims = [y for y in args if y not in vals]
    if not c.ob("values", "source", len(vals) == 1 and len(dims) == 1, "values %s" % show(x, 4)):
        return
    f = vals[0]
    while f.op == "collect":
        f = f.a[0]
    rows, cols, val, cond = flat2(f) if f.op != "loopvar" else pushed2(E, f)
    if not c.ob("values", "all rows", rows is not None and soft(rows) is data and cond, "all rows of the partition must be used, one after the other; used is %s" % show(f, 6)):
        return
    cr = col_range(cols)
    if not c.ob("values", "columns", cr is not None and cr[0] is elem(rows), "the columns of a row must be a range of it; they are %s" % show(cols, 6)):
        return
    _, lo, hi = cr
    v = val
    if v.op == "field" and v.a[1] == "Ok.0":
        v = v.a[0]
    okv = (v.op == "call" and v.a[0].split("::")[-1] in ("from_str", "parse") or v.op in ("parse", "from_str")) and soft(v.a[1]) is elem(cols)
    c.ob("values", "parsed", okv, "each value must be the number in the file; it is %s" % show(val, 5))
    un = [e for e in E.events if e.kind == "unwrap" and e.args and e.args[0] is v]
    c.ob("values", "not a number is fatal", bool(un), "a value that is not a number must end the run, not be replaced")
    # column bounds
    ce, cs = proj(SELF, ("parameters", "column_end")), proj(SELF, ("parameters", "column_start"))
    wid = {y for t in (lo, hi) for y in subterms(t) if y.op == "call" and y.a[0].split("::")[-1] == "len" and contains(y, lambda z: z is data)}
    pts_lo, pts_hi = [], []
    for w in range(1, 8):
        for s in range(0, w):
            for e_ in range(-w + 1, w + 1):
                hi_ = w if e_ == 0 else e_ if e_ > 0 else w + e_
                if hi_ <= s:
                    continue
                env = {cs: const(s), ce: const(e_)}
                for y in wid:
                    env[y] = const(w)
                pts_lo.append((env, s))
                pts_hi.append((env, hi_))
    for nm, t, pts in (("first column", lo, pts_lo), ("column after the last", hi, pts_hi)):
        r = tab.same_function(t, None, pts)
        c.ob("columns", nm, r is None, "%s: %s" % (nm, r))
    okw = all(y.a[1].op in ("index", "ix") or True for y in wid)
    # shape: rows x columns
    dm = dims[0]
    parts = [y for y in subterms(dm) if y.op in ("array", "tuple") and len(y.a) == 2]
    okk = False
    if parts:
        r_, k_ = parts[0].a
        okr = r_.op == "call" and r_.a[0].split("::")[-1] == "len" and r_.a[1] is data
        bad = tab.same_function(sub(k_, sub(hi, lo)), None, [(e_, 0) for e_, _ in pts_lo])
        okk = okr and bad is None
    c.ob("values", "row length", okk, "the layout must be rows x selected columns; it is %s" % show(dm, 6))
    check_fromto(c)


def pushed2(E, f):
    """the same for a list filled by nested loops"""
    la = listadds(E, f)
    if la and la[0] is None and len(la[1]) == 1 and la[1][0].src is not None and la[1][0].src.op == "flat":
        a = la[1][0]
        return a.src.a[0], a.src.a[1], a.val, no_panic(a.cond) == 1
    return None, None, None, False


def flat2(f):
    """(outer, inner, value, unconditional) of nested iteration flattened in order"""
    if f.op in ("flat", "flatten") or is_call(f, "flatten"):
        s = f.a[-1]
        if s.op == "collect":
            s = s.a[0]
        if s.op == "seq":
            inner = s.a[1]
            while inner.op == "collect":
                inner = inner.a[0]
            if inner.op == "seq":
                return s.a[0], inner.a[0], inner.a[1], asb(s.a[2]) == 1 and asb(inner.a[2]) == 1
    return None, None, None, False


def local_data(c):
    b = c.p.handler("DataManager", "LocalReadDataMessage")
    if not c.need(b, "handler of LocalReadDataMessage"):
        return
    E = c.run(b, opaque_other(b), "inp")
    d = proj(self_final(E), ("data",))
    c.ob("values", "data handed over in memory", d is some(proj(sym("msg"), ("data",))), "data handed over in memory must be used as it is; it becomes %s" % show(d, 4))


def p15(c):
    reading(c)
    partition(c)
    local_data(c)
    c.assume.append("the csv crate yields the records of the file in order, without the header and without blank lines; pattern_length - 1 is smaller than the rows per node")
