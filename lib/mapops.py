"""What a handler does to a map-valued (or list-valued) field: summarised per key as
   (value afterwards if the key was absent, value afterwards if it was present)."""
import copy
from q import *

OLD = sym("OLD")
MISSING = sym("MISSING")
GETNAMES = ("get", "get_mut")
STRIP = ("get_mut", "entry", "iter_mut", "values_mut", "as_mut", "reserve", "borrow_mut")


def origin(E, t, depth=0):
    """the place/value a container term started from (ignoring updates made to it)"""
    while depth < 60:
        depth += 1
        if t.op == "mut":
            t = t.a[2]
        elif t.op == "loopvar" and t in E.loopinfo:
            t = E.loopinfo[t][0]
        elif t.op == "upd":
            t = t.a[0]
        elif t.op == "ite":
            a, b = origin(E, t.a[1], depth), origin(E, t.a[2], depth)
            return a if a is b else t
        else:
            return t
    return t


def mapref(E, t):
    """t == get/get_mut(map,k).Some.0, index_mut(map,k), or_insert(entry(map,k),v) ...: (map, key, init or None)"""
    init = None
    x = t
    if x.op == "field" and x.a[1] == "Some.0":
        x = x.a[0]
        if x.op == "call" and x.a[0].split("::")[-1] in GETNAMES and len(x.a) == 3:
            return x.a[1], x.a[2], None
        return None
    if x.op == "call" and len(x.a) == 2 and x.a[0].split("::")[-1] in ("get_mut", "get", "into_mut") and vacant(x.a[1], "Occupied.0"):
        x = vacant(x.a[1], "Occupied.0")
        return x.a[1], x.a[2], None
    if x.op == "call" and x.a[0].split("::")[-1] in ("or_insert", "or_default", "or_insert_entry"):
        ent = x.a[1]
        while ent.op == "call" and ent.a[0].split("::")[-1] == "and_modify":
            ent = ent.a[1]
        if ent.op == "call" and ent.a[0].split("::")[-1] == "entry":
            return ent.a[1], ent.a[2], (x.a[2] if len(x.a) > 2 else sym("DEFAULT"))
    if x.op == "call" and x.a[0].split("::")[-1] in ("index_mut", "index") and len(x.a) == 3:
        return x.a[1], x.a[2], None
    return None


class Merge:
    def __init__(self, loops, key, cond, absent, present, where, has):
        self.loops, self.key, self.cond, self.absent, self.present, self.where, self.has = loops, key, cond, absent, present, where, has

    def __repr__(self):
        return "Merge(key=%s absent=%s present=%s cond=%s loops=%s)" % (show(self.key, 5), show(self.absent, 6), show(self.present, 6), showb(self.cond)[:120], [show(x, 4) for x in self.loops])


def canon_list(t):
    """container value -> ('list', base, items...) ; push/append/vec![..]/extend"""
    if t.op == "mut":
        nm = t.a[0].split("::")[-1]
        if nm in ("push", "push_back", "insert") and len(t.a) == 4:
            return mk("append", canon_list(t.a[2]), t.a[3])
        if nm in ("extend", "append", "extend_from_slice") and len(t.a) == 4:
            b = canon_list(t.a[2])
            return t.a[3] if b is sym("EMPTY") else mk("concat", b, t.a[3])
    if t.op == "array":
        r = sym("EMPTY")
        for x in t.a:
            r = mk("append", r, x)
        return r
    if t.op == "call" and t.a[0].split("::")[-1] in ("new", "default", "with_capacity", "vec"):
        return sym("EMPTY")
    if t is sym("DEFAULT"):
        return sym("EMPTY")
    if t.op == "call" and t.a[0].split("::")[-1] in ("into_vec", "to_vec", "box_new", "box_assume_init_into_vec_unsafe", "write_box_via_move") :
        for y in t.a[1:]:
            if isinstance(y, T):
                return canon_list(y)
    if t.op == "ite":
        return ite(t.a[0], canon_list(t.a[1]), canon_list(t.a[2]))
    return t


def vacant(t, which="Vacant.0"):
    """the entry() call a vacant (occupied) entry came from"""
    if t.op == "field" and t.a[1] == which and t.a[0].op == "call" and t.a[0].a[0].split("::")[-1] == "entry" and len(t.a[0].a) == 3:
        return t.a[0]
    return None


def merges(E, place, loops=None, events=None, ismap=None):
    """summaries of all keyed updates of the map that started at `place` (a term)"""
    groups = {}
    order = []
    if ismap is None:
        def ismap(t):
            return origin(E, t) is place
    for e in (events if events is not None else E.events):
        if loops is not None and tuple(e.loops) != tuple(loops):
            continue
        rec = None
        if e.kind == "call" and e.name == "extend" and len(e.args) == 2 and ismap(e.args[0]) and e.args[1].op in ("seq", "collect"):
            sq = e.args[1]
            sq = sq if sq.op == "seq" else sq.a[0]
            if sq.op == "seq" and sq.a[1].op == "tuple" and len(sq.a[1].a) == 2:
                e2 = copy.copy(e)
                e2.loops = tuple(e.loops) + (sq.a[0],)
                e2.cond = band(e.cond, asb(sq.a[2]))
                rec = ("insert", sq.a[1].a[0], sq.a[1].a[1], None, e2)
                e = e2
        elif e.kind == "call" and e.name == "insert" and len(e.args) == 3 and ismap(e.args[0]):
            rec = ("insert", e.args[1], e.args[2], None, e)
        elif e.kind == "call" and e.name in ("insert", "insert_entry") and len(e.args) == 2 and vacant(e.args[0]) and ismap(vacant(e.args[0]).a[1]):
            rec = ("insert", vacant(e.args[0]).a[2], e.args[1], None, e)
        elif e.kind == "write":
            root, ks, val = e.extra
            if root[0] == "O":
                mr = mapref(E, root[1])
                if mr and ismap(mr[0]):
                    rec = ("write", mr[1], (root[1], tuple(ks), val), mr[2], e)
        elif e.kind == "call" and e.name in ("or_insert", "or_default") and mapref(E, mk("call", e.fn, *e.args)) and ismap(mapref(E, mk("call", e.fn, *e.args))[0]):
            mr = mapref(E, mk("call", e.fn, *e.args))
            rec = ("orins", mr[1], mr[2], None, e)
        if rec:
            k = (tuple(e.loops), rec[1])
            if k not in groups:
                groups[k] = []
                order.append(k)
            groups[k].append(rec)
    out = []
    for k in order:
        loops_, key = k
        has_atom = mk("is", mk("call", "GET", place, key), "Some")
        GET = mk("call", "GET", place, key)
        HAS = bvar(has_atom)
        m = {}

        def learn(t):
            for x in subterms(t):
                if x.op == "call" and len(x.a) == 3 and x.a[2] is key and isinstance(x.a[1], T):
                    nm = x.a[0].split("::")[-1]
                    if nm in GETNAMES and ismap(x.a[1]):
                        m[x] = GET
                    elif nm == "contains_key" and ismap(x.a[1]):
                        m[x] = boolt(HAS)
                elif x.op == "is" and x.a[1] in ("Vacant", "Occupied") and x.a[0].op == "call" and x.a[0].a[0].split("::")[-1] == "entry" and x.a[0].a[2] is key and ismap(x.a[0].a[1]):
                    m[x] = boolt(bnot(HAS) if x.a[1] == "Vacant" else HAS)
        for kind, _, v, init, e in groups[k]:
            learn(boolt(e.cond))
            for t in (v if isinstance(v, tuple) else (v,)):
                if isinstance(t, T):
                    learn(t)
        PV, AV, cov = OLD, MISSING, 0
        PB, AB = OLD, MISSING        # what a reference into the map denotes (writes through it are cumulative)
        for kind, _, v, init, e in groups[k]:
            cond = asb(subst(boolt(e.cond), m))
            if kind == "insert":
                v2 = subst(v, m)
                PB = PV = ite(cond, subst(v2, {proj1(GET, "Some.0"): OLD}), PV)
                AB = AV = ite(cond, v2, AV)
            elif kind == "orins":
                AB = AV = ite(cond, v, AV) if AV is MISSING else AV
            else:
                root, ks, val = v
                lv = {}
                for x in subterms(val):
                    if x.op == "loopvar" and x in E.loopinfo:
                        o = origin(E, x)
                        if o is root or same_ref(E, o, ismap, key):
                            lv[x] = root
                val = subst(val, lv)
                refs = {x: sym("CUR") for x in subterms(val) if x is root or same_ref(E, x, ismap, key)}
                body = subst(subst(val, refs), m)
                if ks:
                    body = update(sym("CUR"), ks, body)
                PV = ite(cond, subst(body, {sym("CUR"): restrict(PB, cond)}), PV)
                if init is not None or not bimp(cond, HAS):
                    AV = ite(cond, subst(body, {sym("CUR"): restrict(AB, cond) if restrict(AB, cond) is not MISSING else (init if init is not None else MISSING)}), AV)
            cov = bor(cov, cond)
        mm = (Merge(loops_, key, cov, canon_list(restrict(AV, bnot(HAS))), canon_list(restrict(PV, HAS)), where_of(groups[k][0][4]), HAS))
        out += unroll(mm)
    return out


def unroll(m):
    """an update in a loop over a literal array is one update per item"""
    if not m.loops or m.loops[-1].op != "array" or not 0 < len(m.loops[-1].a) <= 8:
        return [m]
    src = m.loops[-1]
    r = []
    for x in src.a:
        d = {elem(src): x}
        f = lambda t: subst(t, d)
        g = lambda b: asb(subst(boolt(b), d))
        r.append(Merge(m.loops[:-1], f(m.key), g(m.cond), f(m.absent), f(m.present), m.where, g(m.has)))
    return r


def same_ref(E, x, ismap, key):
    mr = mapref(E, x)
    return bool(mr) and mr[1] is key and ismap(mr[0])


def local_map(E, final):
    """predicate recognising the evolving value of a local container whose final value is `final`"""
    lvs = {x.a[1] for x in subterms(final) if x.op == "loopvar"} if final.op != "loopvar" else {final.a[1]}
    accs = {final.a[3]} if final.op == "fold" else set()

    def ismap(t, d=0):
        while d < 60:
            d += 1
            if t.op == "mut":
                t = t.a[2]
            elif t.op == "loopvar":
                return t.a[1] in lvs
            elif t in accs:
                return True
            elif t.op == "ite":
                return ismap(t.a[1], d) and ismap(t.a[2], d)
            else:
                return False
        return False
    return ismap


def drop(b, atom_bdd):
    """condition b with the has-atom projected away"""
    at = bsupport(atom_bdd)
    return bexists(b, lambda a: a in at)
