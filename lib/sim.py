"""Transfer functions with one level of loops, tabulated: which events a function produces from a state
that is given by constants, and the state it leaves. Works on the extracted terms only."""
from tab import *
from q import *
from cells import Unknown, name


def chain(src):
    """the adaptors of a loop's source, innermost last: [(kind, term)]"""
    out = []
    while True:
        out.append(src)
        if src.op in ("enumerate",):
            src = src.a[0]
        elif src.op == "call" and name(src) in ("take", "skip", "into_iter", "iter", "enumerate", "by_ref"):
            src = src.a[1]
        else:
            return out


def num(t, env):
    v = value(t, env)
    if v is None:
        raise Unknown(show(t, 4)[:120])
    return v


def holds(cond, env):
    if isinstance(cond, int) and cond in (0, 1):
        return bool(cond)
    for c in (cond, no_panic(cond)):
        v = value(boolt(c), env) if c not in (0, 1) else bool(c)
        if v is not None:
            return bool(v)
    raise Unknown("condition " + showb(cond)[:120])


def simulate(E, events, env, limit=400):
    """[(event, env at that moment)] in order, and the constants of the loop variables afterwards"""
    done = []
    env = dict(env)
    groups = {}
    for e in events:
        if len(e.loops) > 1:
            raise Unknown("nested loops")
        groups.setdefault(e.loops[0] if e.loops else None, []).append(e)
    for e in groups.pop(None, []):
        if holds(e.cond, env):
            done.append((e.idx, 0, e, dict(env)))
    for src, es in groups.items():
        lids = {l for l, s in E.lsrc.items() if s is src}
        if src.op == "while":
            lids.add(src.a[0])
        lvs = [lv for lv, inf in E.loopinfo.items() if inf[2] in lids]
        cur = {}
        for lv in lvs:
            v = value(E.loopinfo[lv][0], env)
            if v is not None:
                cur[lv] = v
        # the source's items
        ch = chain(src)
        if src.op == "while":
            items = None
        else:
            r = ch[-1]
            if not (r.op == "adt" and r.a[0].split("::")[-1] in ("Range", "RangeInclusive")):
                raise Unknown("loop over " + show(src, 3)[:100])
            d = dict(r.a[2])
            lo, hi = num(d["start"], env), num(d["end"], env) + (1 if r.a[0].endswith("RangeInclusive") else 0)
            items = list(range(int(lo), int(hi)))
            for x in reversed(ch[:-1]):
                if x.op == "call" and name(x) == "take":
                    items = items[:int(num(x.a[2], env))]
                elif x.op == "call" and name(x) == "skip":
                    items = items[int(num(x.a[2], env)):]
        k = 0
        while k < limit and (items is None or k < len(items)):
            it = dict(env)
            it.update({lv: const(v) for lv, v in cur.items()})
            if items is not None:
                for x in ch:
                    it[pos(x)] = const(k)
                    if x.op != "enumerate":
                        it[elem(x)] = const(items[k])
            hit = [e for e in es if holds(e.cond, it)]
            if not hit:
                break
            for e in hit:
                done.append((e.idx, k, e, it))
            for lv in list(cur):
                st = E.loopinfo[lv][1]
                v = value(st, it) if st is not None else None
                if v is None:
                    raise Unknown("step of " + show(lv, 3)[:80])
                cur[lv] = v
            k += 1
        if k >= limit:
            raise Unknown("loop does not end")
        env.update({lv: const(v) for lv, v in cur.items()})
    done.sort(key=lambda x: (x[0] if not x[2].loops else min(e.idx for e in events if e.loops == x[2].loops), x[1], x[0]))
    return [(e, v) for _, _, e, v in done], env
