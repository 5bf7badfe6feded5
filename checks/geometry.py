"""P27 where a crossing lies: boundary of the segment, line of the transition, their common point, its distances."""
from routing import *
from lists import listadds
from geo import *
import random


def point(rnd, dims, i, seg):
    return Rec("PointRef", **{"0": Rec("Point", id=i, coordinates=[rnd.uniform(-3, 3) or 1.0 for _ in range(dims)], segment=seg)})


def task_points(E, v, loops, rs):
    """(deviation of the line, deviation of the plane, number of samples) of the collected tasks; Unknown if not readable"""
    rnd = random.Random(11)
    badl = badp = None
    n = 0
    tr = elem(loops[0])
    for dims in (2, 4, 6):
        for rate in (3, 8, 13):
            ts = [Rec("Transition", from_point=point(rnd, dims, i, f % rate), to_point=point(rnd, dims, i + 1, (f + s) % rate)) for i, (f, s) in enumerate(((0, 1), (rate - 2, rate // 2), (1, max(1, rate // 2)), (rate - 1, 1)))]
            for t in ts:
                G = Geo(E, {TRANS: ts, RATE: rate, tr: t})
                for k, m in enumerate(G.within({tr: t}, lambda: G.items(rs[0]))):
                    def look():
                        return G(v.a[1]), G(v.a[2]), G(v.a[3])
                    s, l, p = G.within({tr: t, **m}, look)
                    n += 1
                    a, b = [t[x]["0"]["coordinates"] for x in ("from_point", "to_point")]
                    if not badl and [[float(x) for x in y] for y in l] not in ([a, b], [b, a]):
                        badl = "for %d dimensions the line is not that of the transition's points" % dims
                    th = 2 * math.pi * s / rate
                    off = [abs(x[0] * math.sin(th) - x[1] * math.cos(th)) for x in p]
                    if not badp and (len(p) != dims or any(len(x) != dims for x in p) or max(off) > 1e-6 * (1 + max(abs(y) for x in p for y in x[:2]))):
                        badp = "with %d segments and %d dimensions the plane of segment %d does not lie in the direction %d/%d of a turn" % (rate, dims, s, s, rate)
                    elif not badp and rank([[y - z for y, z in zip(x, p[0])] for x in p[1:]]) != dims - 1:
                        badp = "with %d dimensions the points of the plane of segment %d do not span it" % (dims, s)
                    elif not badp and not any(abs(y) > 1e-9 for y in p[-1][:2]):
                        badp = "the plane of segment %d has no direction" % s
    return badl, badp, n


def common_point(c):
    hb = c.p.handler("IntersectionCalculationHelper", "IntersectionTaskMessage")
    if not c.need(hb, "helper for IntersectionTaskMessage"):
        return 0
    H = c.run(hb)
    rs = sends(H, "IntersectionResultMessage")
    ad = listadds(H, proj(rs[0].args[1], ("results",))) if len(rs) == 1 else None
    if not c.ob("crossing", "computed", bool(ad) and ad[0] is None and len(ad[1]) == 1 and ad[1][0].val.op == "adt", "one result per task is expected"):
        return 0
    val, src = ad[1][0].val, ad[1][0].src
    t = elem(src)
    it = dict(val.a[2]).get("intersection")
    rnd = random.Random(5)
    bad = None
    n = 0
    for dims in (2, 4, 6, 8):
        for _ in range(4):
            half = dims // 2
            th = rnd.uniform(0, 2 * math.pi)
            dirs = [[math.cos(th), math.sin(th)] + [0.0] * (dims - 2)] + [[rnd.uniform(-2, 2) if j == k else 0.0 for j in range(dims)] for k in range(2, dims)]
            rows = [[0.0] * dims]
            for k in range(dims - 1):
                co = [rnd.uniform(.5, 2) if j == k else rnd.uniform(-.4, .4) for j in range(dims - 1)]
                rows.append([sum(co[j] * dirs[j][i] for j in range(dims - 1)) for i in range(dims)])
            a, b = [[rnd.uniform(-3, 3) for _ in range(dims)] for _ in range(2)]
            f = lambda x: x[0] * math.sin(th) - x[1] * math.cos(th)
            q = f(a) / (f(a) - f(b))
            x = [u + q * (w - u) for u, w in zip(a, b)]
            want = [math.hypot(x[j], x[half + j]) for j in range(half)]
            G = Geo(H, {t: Rec("IntersectionTask", line_points=[a, b], plane_points=rows, segment_id=0)})
            try:
                got = G(it)
                n += 1
                if not isinstance(got, list) or len(got) != half or any(not math.isclose(u, w, rel_tol=1e-6, abs_tol=1e-7) for u, w in zip(got, want)):
                    bad = bad or "in %d dimensions a line through %s meets the plane at the distances %s, computed is %s" % (dims, [round(u, 2) for u in a[:2]], [round(u, 4) for u in want], [round(float(u), 4) for u in flat(got)] if isinstance(got, list) else got)
            except (Unknown, ZeroDivisionError, TypeError, IndexError) as u:
                bad = bad or "not understood: %s" % u
    c.ob("crossing", "distances of the common point", bad is None, "a crossing must be given, for each dimension, by the distance from the origin of the point where the line meets the plane: %s" % bad)
    return n


def p27(c):
    b = c.need(c.p.handler("Training", "SegmentedMessage"), "handler for SegmentedMessage")
    if not b:
        return
    E = c.run(b, proto_opaque(c.p), "proto")
    adds = list_adds(E, proj(SELF, ("intersection_calculation", "pairs")))
    n = 0
    if c.ob("boundary", "collected", len(adds) == 1 and adds[0][0].op == "tuple" and len(adds[0][0].a) == 4 and len(adds[0][2]) == 2, "line and plane are expected to be collected once per crossing"):
        v, cd, loops, e = adds[0]
        rs = innermost_ranges(v.a[1], loops)
        try:
            if len(rs) != 1:
                raise Unknown("the segment is %s" % show(v.a[1], 5)[:120])
            bl, bp, n = task_points(E, v, loops, rs)
        except (Unknown, ZeroDivisionError, TypeError, IndexError) as u:
            bl = bp = "not understood: %s" % u
        c.ob("boundary", "line through both points", bl is None, "the line must go through the transition's two points: %s" % bl, where_of(e))
        c.ob("boundary", "plane in the segment's direction", bp is None, "the plane must be the lower boundary of the crossed segment: %s" % bp, where_of(e))
    m = common_point(c)
    c.floor("sampled crossings", n + m, 40)
