"""How a list value was built: base plus appended contributions."""
from q import *

ADD1 = ("push", "push_back")
ADDN = ("extend", "append", "extend_from_slice")
EMPTYF = ("new", "default", "with_capacity", "clear")


class Add:
    """one contribution: for every element of src (None: once) the value, if cond; order: 'append'"""
    __slots__ = ("src", "val", "cond")

    def __init__(self, src, val, cond=1):
        self.src, self.val, self.cond = src, val, cond

    def __repr__(self):
        return "Add(%s: %s if %s)" % (show(self.src, 5) if self.src is not None else "-", show(self.val, 6), showb(self.cond)[:80])


def is_empty_list(t):
    if t.op == "call" and t.a[0].split("::")[-1] in ("new", "default", "with_capacity") and not any(x.op in ("loopvar",) for x in t.a[1:] if isinstance(x, T)):
        return True
    if t.op == "array" and not t.a:
        return True
    if t.op == "mut" and t.a[0].split("::")[-1] == "clear":
        return True
    if t.op == "adt" and t.a[0].endswith("Vec"):
        return False
    if t.op == "call" and t.a[0].split("::")[-1] == "vec_new":
        return True
    return False


def seq_of(t):
    """contributions of an iterable added as a whole"""
    while t.op == "collect":
        t = t.a[0]
    if t.op == "seq":
        inner = t.a[0]
        return Add(inner, t.a[1], asb(t.a[2]))
    return Add(t, elem(t), 1)


def chained(t):
    """contributions of an iterable, concatenations and single values taken apart"""
    while t.op == "collect":
        t = t.a[0]
    if t.op == "chain" or (t.op == "call" and t.a[0].split("::")[-1] == "chain" and len(t.a) == 3):
        a, b = t.a[-2:]
        return chained(a) + chained(b)
    if t.op in ("call", "once") and t.a and (t.op == "once" or t.a[0].split("::")[-1] == "once"):
        return [Add(None, t.a[-1])]
    if t.op == "array":
        return [Add(None, x) for x in t.a]
    if t.op == "seq":
        r = []
        for x in chained(t.a[0]) if t.a[0].op in ("chain", "call") else []:
            if x.src is None:
                d = {elem(t.a[0]): x.val}
                r.append(Add(None, subst(t.a[1], d), asb(subst(t.a[2], d))))
            else:
                r = None
                break
        if r:
            return r
    return [seq_of(t)]


def listadds(E, t, depth=0, stop=None):
    """(base, [Add...]) ; base is None for an empty list. None if not understood"""
    if depth > 20:
        return None
    if t is stop:
        return (t, [])
    if is_empty_list(t):
        return (None, [])
    if t.op == "mut":
        nm = t.a[0].split("::")[-1]
        if nm in ADD1 and len(t.a) == 4:
            r = listadds(E, t.a[2], depth + 1)
            return r and (r[0], r[1] + [Add(None, t.a[3])])
        if nm in ADDN and len(t.a) == 4:
            r = listadds(E, t.a[2], depth + 1)
            return r and (r[0], r[1] + chained(t.a[3]))
        if nm in ("reserve", "shrink_to_fit", "iter_mut", "as_mut", "borrow_mut", "deref_mut"):
            return listadds(E, t.a[2], depth + 1)
        return None
    if t.op == "array":
        return (None, [Add(None, x) for x in t.a])
    if t.op == "call" and t.a[0].split("::")[-1] in ("into_vec", "to_vec", "box_new", "box_assume_init_into_vec_unsafe", "write_box_via_move", "into_boxed_slice") and len(t.a) >= 2:
        for y in t.a[1:]:
            if isinstance(y, T) and y.op == "array":
                return listadds(E, y, depth + 1)
    if t.op == "collect" or t.op == "seq":
        return (None, chained(t))
    if t.op == "loopvar" and t in E.loopinfo:
        init, step, lid = E.loopinfo[t]
        src = E.lsrc.get(lid, mk("while", lid))
        r = listadds(E, init, depth + 1, stop)
        if r is None or step is None:
            return None
        out = []

        def go(s, cond):
            """collect pushes on top of t along gated branches"""
            if s is t:
                return True
            if s.op == "ite":
                return go(s.a[1], band(cond, s.a[0])) and go(s.a[2], band(cond, bnot(s.a[0])))
            if s.op == "mut" and s.a[0].split("::")[-1] in ADD1 and len(s.a) == 4:
                if not go(s.a[2], cond):
                    return False
                out.append(Add(src, s.a[3], cond))
                return True
            if s.op == "mut" and s.a[0].split("::")[-1] in ADDN and len(s.a) == 4:
                if not go(s.a[2], cond):
                    return False
                x = seq_of(s.a[3])
                out.append(Add(mk("flat", src, x.src), x.val, band(cond, x.cond)))
                return True
            if s.op == "loopvar" and s in E.loopinfo:
                inner = listadds(E, s, depth + 1, t)
                if inner is None or inner[0] is not t or len(inner[1]) != 1 or inner[1][0].src is None:
                    return False
                x = inner[1][0]
                out.append(Add(mk("flat", src, x.src), x.val, band(cond, x.cond)))
                return True
            return False
        if not go(step, 1):
            return None
        # the same value pushed on complementary branches is one contribution
        m = {}
        for a in out:
            k = (a.src, a.val)
            m[k] = bor(m.get(k, 0), a.cond)
        return (r[0], r[1] + [Add(k[0], k[1], v) for k, v in m.items()])
    if t.op == "ite":
        a, b = listadds(E, t.a[1], depth + 1), listadds(E, t.a[2], depth + 1)
        if a and b and a[0] is b[0]:
            m = {}
            for br, l in ((t.a[0], a[1]), (bnot(t.a[0]), b[1])):
                for x in l:
                    k = (x.src, x.val)
                    m[k] = bor(m.get(k, 0), band(br, x.cond))
            return (a[0], [Add(k[0], k[1], v) for k, v in m.items()])
        return None
    return (t, [])


def unfloat(t):
    """drop int->float conversions (comparison of formulas up to where the conversion happens)"""
    m = {}
    for x in subterms(t):
        if x.op == "tofloat":
            m[x] = x.a[0]
    if not m:
        return t
    return subst(t, m)


def closed(E, t, _d=0):
    """closed forms of values after a loop: x += f(elem) becomes init + sum over the loop"""
    if _d > 6:
        return t
    m = {}
    for x in subterms(t):
        if x.op == "loopvar" and x in E.loopinfo:
            init, step, lid = E.loopinfo[x]
            src = E.lsrc.get(lid)
            if step is None or src is None:
                continue
            d = mapite(sub(step, x), lambda y: y) if step.op != "ite" else ite(step.a[0], sub(step.a[1], x), sub(step.a[2], x))
            if contains(d, lambda y: y.op == "loopvar" and y.a[0] is lid):
                continue
            if d.op == "ite" and (d.a[2] is const(0) or d.a[1] is const(0)):
                cond = d.a[0] if d.a[2] is const(0) else bnot(d.a[0])
                val = d.a[1] if d.a[2] is const(0) else d.a[2]
            else:
                cond, val = 1, d
            m[x] = add(init, mk("call", "sum", mk("seq", src, val, boolt(cond))))
    if not m:
        return t
    return closed(E, subst(t, m), _d + 1)


def lookups(t):
    """[(map, key, value term)] for get(map,key).unwrap() and map[key]"""
    out = []
    for x in subterms(t):
        if x.op == "call" and x.a[0].split("::")[-1] in ("get", "get_mut", "remove") and len(x.a) == 3:
            out.append((x.a[1], x.a[2], proj(x, ("Some.0",))))
        elif x.op == "index" and isinstance(x.a[1], T):
            out.append((x.a[0], x.a[1], x))
        elif x.op == "call" and x.a[0].split("::")[-1] in ("index", "index_mut") and len(x.a) == 3:
            out.append((x.a[1], x.a[2], x))
    return out


def mapped(E, t):
    """a list in which every element was replaced once, in place, by a function of itself -> seq over the original"""
    if t.op == "collect" and len(t.a) == 2:
        r = mapped(E, t.a[0])
        return r
    if t.op != "loopvar" or t not in E.loopinfo:
        return t
    init, step, lid = E.loopinfo[t]
    src = E.lsrc.get(lid)
    if step is None or src is None or step.op != "upd" or step.a[0] is not t or len(step.a[1]) != 1:
        return t
    k, v = step.a[1][0]
    if isinstance(k, str):
        return t
    ix = k[1] if isinstance(k, tuple) else k
    full = ix is mk("pos", src) and src is init
    if src.op == "adt" and src.a[0].split("::")[-1] == "Range" and ix is elem(src):
        d = dict(src.a[2])
        full = d["start"] is const(0) and d["end"].op == "call" and d["end"].a[0].split("::")[-1] == "len" and d["end"].a[1] is init
    if not full:
        return t
    v = subst(v, {proj1(t, ("ix", ix)): elem(init)})
    if contains(v, lambda y: y is t):
        return t
    return mk("seq", init, v, TRUE)


def indexed(src, val):
    """(list, value): a loop over positions 0..len of a list that only uses the element there counts as a loop over the list"""
    if src.op == "adt" and src.a[0].split("::")[-1] == "Range":
        d = dict(src.a[2])
        if d["start"] is const(0) and d["end"].op == "call" and d["end"].a[0].split("::")[-1] == "len":
            l = d["end"].a[1]
            v = subst(val, {proj1(l, ("ix", elem(src))): elem(l)})
            if not contains(v, lambda y: y is elem(src)):
                return l, v
    return src, val


def as_set(t):
    """the list whose distinct elements are iterated when t, a set made from all of it, is"""
    if t.op == "collect" and len(t.a) > 1 and t.a[1].op == "ty" and t.a[1].a[0].split("::")[-1].split("<")[0] in ("HashSet", "BTreeSet", "IndexSet"):
        s = t.a[0]
        if s.op == "seq":
            return s.a[0] if s.a[1] is elem(s.a[0]) and asb(s.a[2]) == 1 else None
        return s
    return None


def collected(E, t, _d=0):
    """lists filled by one push per turn of a loop -> collected sequences"""
    m = {}
    for x in subterms(t):
        if x.op == "loopvar" and x in E.loopinfo:
            la = listadds(E, x)
            if la is not None and la[0] is None and len(la[1]) == 1 and la[1][0].src is not None and no_panic(la[1][0].cond) == 1:
                m[x] = mk("collect", mk("seq", la[1][0].src, la[1][0].val, TRUE), mk("ty", "std::vec::Vec"))
    if not m or _d > 3:
        return t
    return collected(E, subst(t, m), _d + 1)
