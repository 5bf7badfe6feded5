"""P20 self-correction of the direction of rotation."""
from rotate import *
from lists import closed

SEGM = ("segmentation",)
VALID, INVALID = SEGM + ("global_transition_count",), SEGM + ("invalid_transition_directions",)
PTS = ("data_store", "points")
PROT = SEGM + ("transition_count_protocol",)


def lv_place(t):
    """(root, path) a loop variable stands for"""
    p = t.a[1]
    return (p.a[0], tuple(p.a[1]))


def mirror_of(E):
    """loop variables of the point list, with their loops: points changed in place"""
    return [t for t in E.loopinfo if t.op == "loopvar" and lv_place(t) == (("O", SELF), PTS) and E.loopinfo[t][1] is not None and E.loopinfo[t][1] is not t]


def resolved(E, t):
    """values written through get_mut(list, i), put in place"""
    m = {}
    for x in subterms(t):
        if x.op == "mut" and cells.name(x) in ("get_mut", "index_mut", "first_mut", "iter_mut") and x.a[1] == 0:
            src = x.a[2]
            k = x.a[3] if len(x.a) > 3 else const(0)
            ref = mk("call", x.a[0], *x.a[2:])
            for e in E.events:
                if e.kind == "write" and e.extra[0] == ("O", proj(ref, ("Some.0",))) and e.extra[1] == ():
                    v = e.extra[2]
                    # what the reference shows before the write is the entry itself
                    olds = [y for y in subterms(v) if y.op == "loopvar" and lv_place(y)[0] == e.extra[0]] + [proj(ref, ("Some.0",))]
                    v = subst(v, {o: mk("index", src, k) for o in olds})
                    m[x] = (src, k, v)
    return m


def mirrored(c, E, inst, lv, rate):
    """one point: its first coordinate changes sign, the segment follows"""
    init, step, lid = E.loopinfo[lv]
    src = E.lsrc.get(lid)
    okl = src is not None and init is proj(SELF, PTS) and src is proj(SELF, PTS)
    c.ob("mirror", inst + ": all points", okl, "every point must be mirrored; the loop goes over %s" % (show(src, 4) if src is not None else None))
    if not okl:
        return
    i = pos(src)
    pt = mk("index", lv, i)
    inner = ("0",)
    old = proj(pt, inner)
    new = proj(proj(step, (("ix", i),)), inner)
    oc = proj(old, ("coordinates",))
    # a point has two coordinates
    new = subst(new, {x: boolt(0) for x in subterms(new) if is_call(x, "is_empty") and x.a[1] is oc})
    nc = proj(new, ("coordinates",))
    m = resolved(E, new)
    env_map = {}
    for x, (s, k, v) in m.items():
        env_map[x] = (s, k, v)
    X, Y = mk("index", oc, const(0)), mk("index", oc, const(1))

    def entry(t, k):
        """entry k of a coordinate vector, in terms of the old one"""
        if t is oc:
            return mk("index", oc, const(k))
        if t in m:
            s, kk, v = m[t]
            if kk is const(k):
                return through(v)
            return entry(s, k) if kk.op == "num" else None
        v = proj(t, (("ix", const(k)),))
        return through(v)

    def through(t):
        mm = {}
        for y in subterms(t):
            if y.op == "index" and y.a[1].op == "num" and y.a[0] is not oc and (y.a[0] in m):
                mm[y] = entry(y.a[0], int(y.a[1].a[0]))
        return subst(t, mm)
    e0, e1 = entry(nc, 0), entry(nc, 1)
    c.ob("mirror", inst + ": first coordinate", e0 is mul(const(-1), X), "the first coordinate must change its sign; it becomes %s" % (show(e0, 5) if e0 is not None else None))
    c.ob("mirror", inst + ": second coordinate", e1 is Y, "the second coordinate must stay; it becomes %s" % (show(e1, 5) if e1 is not None else None))
    c.ob("mirror", inst + ": id", proj(new, ("id",)) is proj(old, ("id",)), "the id must stay")
    seg = through(proj(new, ("segment",)))
    # in terms of the mirrored vector
    why = None
    for n in (2, 3, 4, 7, 8, 50, 100):
        for k in range(n):
            for f in (0.02, 0.5, 0.98):
                th = (k + f) * 2 * math.pi / n
                try:
                    v = fval(seg, {X: -2.0 * math.cos(th), Y: 2.0 * math.sin(th), rate: float(n)})
                except (Unknown, ZeroDivisionError, OverflowError) as u:
                    why = why or "not understood: %s" % u
                    break
                if v != k:
                    why = why or "with %d segments, a point mirrored to %.3f of the turn is put into segment %d" % (n, (k + f) / n, v)
    c.ob("mirror", inst + ": segment", why is None, "the segment of a mirrored point must be that of its new angle: %s" % why)


def is_fresh(t):
    if t.op == "mut" and cells.name(t) in ("clear", "drain", "truncate"):
        return True
    if t.op == "call" and cells.name(t) in ("new", "default", "with_capacity"):
        return True
    if t.op == "adt" and t.a[1] == "None":
        return True
    if t.op == "array" and not t.a:
        return True
    if t.op == "adt" and t.a[2]:
        return all(is_fresh(v) for _, v in t.a[2])
    return False


def rebuilt(c, E, inst, lv):
    """the trajectory is segmented again, from a clean state"""
    fin = self_final(E)
    lids = [l for l, s in E.lsrc.items() if peeled(s) is lv]
    c.ob("restart", inst, bool(lids), "the mirrored points must be segmented again")
    n = 0
    for t, (init, step, lid) in E.loopinfo.items():
        if t.op != "loopvar" or lid not in lids or lv_place(t)[0] != ("O", SELF) or step is None or step is t:
            continue
        path = lv_place(t)[1]
        if path == INVALID or path == VALID:
            continue    # the decision is made once
        n += 1
        c.ob("restart", inst + ": " + ".".join(str(x) for x in path), is_fresh(init), "what the first attempt left in %s must be gone before the points are segmented again; it is %s" % (".".join(str(x) for x in path), show(init, 4)[:150]))
    c.ob("restart", inst + ": state", n > 0 or not lids, "the second attempt records nothing")
    # and nothing that other nodes sent may be lost
    keep = SEGM + ("first_point_buffer",)
    v = proj(fin, keep)
    if inst == "count":
        gone = [e for e in E.events if e.kind == "write" and e.extra[1] == keep and not any(is_send(s) and s.args[1] is proj(SELF, keep + ("Some.0",)) and bimp(e.cond, bor(s.cond, bnot(is_variant(proj(SELF, keep), "Some")))) for s in E.events)]
        c.ob("restart", inst + ": early first point", not gone, "the first point of the next node may be here already and must be kept or handled", where_of(gone[0]) if gone else None)


def distributed(c, cl, E, lv, m, g):
    """the steps that go to the other nodes are those of the trajectory as it was decided"""
    from questions import handed
    place = proj(SELF, SEGM + ("transitions_for_nodes",))
    lids = [l for l, s in E.lsrc.items() if peeled(s) is lv]
    if not lids:
        return
    second = lambda x: x.op == "loopvar" and x in E.loopinfo and E.loopinfo[x][2] in lids
    fin = self_final(E)
    w = asb(proj(fin, SEGM + ("waits_for_first_point",)))
    w0 = bnot(asb(proj(SELF, SEGM + ("waits_for_first_point",))))
    tf = restrict(proj(fin, SEGM + ("transitions_for_nodes",)), band(m, w, w0))
    c.ob("distributed", "mirrored: kept", through(E, tf, second), "after mirroring the new steps must be kept until the next node's first point is here; kept is %s" % show(tf, 4)[:150])
    segment_payload(c, cl, E, "mirrored", lambda t: through(E, t, second), m)
    keep = band(g, bnot(m))
    tf = restrict(proj(fin, SEGM + ("transitions_for_nodes",)), band(keep, w, w0))
    c.ob("distributed", "not mirrored: kept", through(E, tf, lambda x: x is place), "without mirroring the steps found before must be kept; kept is %s" % show(tf, 4)[:150])
    segment_payload(c, cl, E, "not mirrored", lambda t: through(E, t, lambda x: x is place), keep)
    src = [E.lsrc[l] for l in lids if any(second(x) and E.loopinfo[x][2] == l for x in E.loopinfo)]
    if src:
        handed(c, cl, E, "mirrored", src[0], m, {})
    for e in [e for e in E.events if is_send(e) and base(e.gargs[-1]) == "SendFirstPointMessage" and band(e.cond, keep) != 0 and e.args[1] is not proj(SELF, SEGM + ("first_point_buffer", "Some.0"))]:
        for k, f in (("point", "send_point"), ("transition", "send_transition")):
            v = restrict(proj(e.args[1], (k,)), band(e.cond, keep))
            c.ob("distributed", "not mirrored: first " + k, v is proj(SELF, SEGM + (f, "Some.0")), "without mirroring the first %s found before must be handed over; it is %s" % (k, show(v, 4)[:150]), where_of(e))
    for k in ("last_point", "last_transition"):
        v = restrict(proj(fin, SEGM + (k,)), keep)
        c.ob("distributed", "not mirrored: " + k, v is proj(SELF, SEGM + (k,)), "without mirroring the %s found before must be kept; it is %s" % (k.replace("_", " "), show(v, 4)[:150]))


def decision(c, E, inst, valid, invalid, when):
    """mirrored exactly if more steps run against the direction than with it"""
    ms = mirror_of(E)
    if not c.ob("decision", inst + ": mirrored", len(ms) == 1, "the points are mirrored in %d loops" % len(ms)):
        return None
    lv = ms[0]
    lid = E.loopinfo[lv][2]
    src = E.lsrc.get(lid)
    ws = [e for e in E.events if e.kind == "write" and tuple(e.extra[1][:2]) == PTS and src in e.loops]
    got, _ = union([no_panic(e.cond) for e in ws])
    want = band(when, cmp("lt", valid, invalid, "usize"))
    c.ob("decision", inst, got == want, "the points must be mirrored exactly if there are fewer valid steps than steps against the direction; they are if %s" % showb(got)[-250:], where_of(ws[0]) if ws else None)
    return lv


def counted(c, E, inst, sc, cl):
    """what is counted while segmenting for the first time"""
    inv = [t for t in E.loopinfo if t.op == "loopvar" and lv_place(t) == (("O", SELF), INVALID) and E.loopinfo[t][1] is not None and E.loopinfo[t][0] is proj(SELF, INVALID)]
    if not c.ob("counted", inst, len(inv) == 1, "steps against the direction are counted in %d loops" % len(inv)):
        return None
    lv = inv[0]
    init, step, lid = E.loopinfo[lv]
    src = E.lsrc.get(lid)
    c.ob("counted", inst + ": all steps", src is not None and origin_points(src), "the loop goes over %s" % (show(src, 4) if src is not None else None))
    okc = step.op == "ite" and {step.a[1], step.a[2]} == {lv, add(lv, const(1))}
    if not c.ob("counted", inst + ": one by one", okc, "the count becomes %s" % show(step, 4)[:150]):
        return lv
    cond = step.a[0] if step.a[1] is not lv else bnot(step.a[0])
    it = elem(src)
    V, calm = 0, 1
    for e in E.events:
        if len(e.loops) != 1 or e.loops[0] is not src:
            continue
        if e.kind == "panic":
            calm = band(calm, bnot(e.cond))
        if e.kind == "call" and any(isinstance(a, T) and contains(a, lambda z: z.op == "adt" and z.a[0].endswith("MaterializedTransition")) for a in e.args) and e.name in ("push", "insert", "or_insert", "or_default", "push_back"):
            V = bor(V, e.cond)
    V, cond = no_panic(V), no_panic(cond)
    c.ob("counted", inst + ": not the valid ones", band(cond, V) == 0, "a step counts either as valid or as against the direction")
    A = bor(band(V, sc), cond)
    want = crossing_cond(E, src, lid, proj(it, ("0", "segment")))
    c.ob("counted", inst + ": every crossing", want is not None and band(A, calm) == band(band(want, sc), calm), "every step into another segment must count as one or the other; %s does" % showb(A)[:250])
    return lv


def peeled(t):
    while t.op == "mut" or t.op == "call" and cells.name(t) in ("clone", "to_vec", "iter", "into_iter", "cloned", "to_owned"):
        t = t.a[2] if t.op == "mut" else t.a[1]
    return t


def origin_points(src):
    return peeled(src) is proj(SELF, PTS)


def crossing_cond(E, src, lid, seg):
    """previous point exists and lies in another segment"""
    for t, (init, step, l) in E.loopinfo.items():
        if l is lid and t.op == "loopvar" and init.op == "adt" and init.a[1] == "None" and step is not None and step.op == "adt" and step.a[1] == "Some":
            v = proj(step, ("Some.0",))
            if contains(v, lambda z: z is elem(src)):
                has = is_variant(t, "Some")
                ps = proj(t, ("Some.0", "0", "segment"))
                return band(has, bnot(cmp("eq", seg, ps, "usize")))
    return None


def p20(c):
    cl = Cluster(c)
    op = proto_opaque(c.p)
    rate = proj(SELF, ("parameters", "rate"))
    sc = asb(proj(SELF, ("parameters", "self_correction")))
    # the rounds of counts
    b = c.p.handler("Training", "TransitionCountMessage")
    if not c.need(b, "handler of TransitionCountMessage"):
        return
    E = c.run(b, op, "proto")
    g = gate_opaque(E, PROT)
    if c.ob("counts", "complete", g is not None, "the handler must consult its protocol once"):
        msg = sym("msg")
        valid, invalid = add(proj(SELF, VALID), proj(msg, ("count",))), add(proj(SELF, INVALID), proj(msg, ("clockwise_count",)))
        fin = self_final(E)
        rec = [e for e in E.events if e.kind == "call" and e.name == "received" and place_of(e.raw[0])[1] == PROT]
        acc = asb(mk("call", rec[0].fn, rec[0].args[0], rec[0].args[1]))
        v = restrict(proj(fin, VALID), acc)
        c.ob("counts", "valid", v is valid, "the count of another node must be added; the number of valid steps becomes %s" % show(v, 5)[:150])
        iw = [e for e in E.events if e.kind == "write" and e.extra[1] == INVALID and not e.loops]
        got, dis = union([no_panic(e.cond) for e in iw])
        c.ob("counts", "against", len(iw) == 1 and got == acc and iw[0].extra[2] is invalid, "the count of another node must be added; the number of steps against the direction becomes %s" % [show(e.extra[2], 5)[:100] for e in iw])
        lv = decision(c, E, "count", valid, invalid, g)
        if lv is not None:
            mirrored(c, E, "count", lv, rate)
            rebuilt(c, E, "count", lv)
            distributed(c, cl, E, lv, band(g, cmp("lt", valid, invalid, "usize")), g)
    # the start
    b = c.p.handler("Training", "RotationDoneMessage")
    if not c.need(b, "handler of RotationDoneMessage"):
        return
    E = c.run(b, op, "proto")
    fin = self_final(E)
    inv = counted(c, E, "own", sc, cl)
    ss = [e for e in E.events if is_send(e) and base(e.gargs[-1]) == "TransitionCountMessage" and e.args[1].op == "adt"]
    got, dis = union([no_panic(e.cond) for e in ss])
    want = band(sc, cl.has)
    ok = len(ss) >= 1 and dis and cl.eq(got, want) and all(not e.loops and cl.target(e.args[0])[:2] == ("node", cl.next_key) for e in ss)
    c.ob("counts", "sent", ok, "with self-correction each node must tell the next one its counts; it does if %s" % showb(got)[:200])
    for e in ss:
        n = proj(e.args[1], ("count",))
        why = all_lists(E, n)
        c.ob("counts", "own valid", why is None, "the number sent must be that of all own valid steps: %s" % why, where_of(e))
        k = proj(e.args[1], ("clockwise_count",))
        c.ob("counts", "own against", inv is not None and k is inv, "the number sent must be that of the own steps against the direction; it is %s" % show(k, 4), where_of(e))
        w = [x for x in E.events if x.kind == "write" and x.extra[1] == VALID and not x.loops and band(x.cond, e.cond) != 0]
        c.ob("counts", "own total", len(w) == 1 and w[0].extra[2] is add(proj(SELF, VALID), n), "the own valid steps belong to the total; it becomes %s" % [show(x.extra[2], 4)[:100] for x in w], where_of(e))
        kp = [x for x in E.events if x.kind == "write" and x.extra[1] == SEGM + ("transitions_for_nodes",) and band(x.cond, e.cond) != 0]
        c.ob("counts", "steps kept", bool(kp) and contains_map(closed(E, n), kp[-1].extra[2]), "the steps found must be kept until the decision")
    # one node alone decides at once
    w = [x for x in E.events if x.kind == "write" and x.extra[1] == VALID and not x.loops and not any(band(x.cond, e.cond) != 0 for e in ss)]
    if c.ob("alone", "count", len(w) == 1 and is_call(w[0].extra[2], "len") and inv is not None, "one node alone compares its own counts"):
        tr = w[0].extra[2].a[1]
        okt = tr.op == "loopvar" and lv_place(tr) == (("O", SELF), ("data_store", "transitions")) or place_of(tr) is not None and tr.op == "loopvar"
        c.ob("alone", "valid", okt, "valid steps are the transitions stored; counted is %s" % show(tr, 4))
        lv = decision(c, E, "alone", w[0].extra[2], inv, band(sc, no_panic(w[0].cond)))
        if lv is not None:
            mirrored(c, E, "alone", lv, rate)
            rebuilt(c, E, "alone", lv)


def contains_map(n, m):
    return contains(n, lambda z: z is m) or any(z is m for z in subterms(n))


def all_lists(E, n):
    """sum of the lengths of all lists of the map of steps"""
    n = closed(E, n)
    if not is_call(n, "sum"):
        return "it is %s" % show(n, 4)[:150]
    s = n.a[1]
    if s.op != "seq" or asb(s.a[2]) != 1:
        return "it is the sum over %s" % show(s, 4)[:150]
    if is_call(s.a[1], "len") and contains(s.a[1], lambda z: z.op == "elem"):
        return None
    return "it is the sum of %s" % show(s.a[1], 4)[:150]
