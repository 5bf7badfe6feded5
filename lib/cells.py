"""Which value reaches which cell of an array: the array expressions extracted from the source are read
cell by cell for small shapes (index arithmetic folded to constants, the data itself stays symbolic)."""
import tab
from q import *


class Unknown(Exception):
    pass


PASS = ("to_owned", "to_shared", "view", "into_shared", "into_owned", "view_mut", "clone", "as_ref", "cloned", "into_dimensionality", "iter", "into_iter", "as_slice", "from_vec", "from_iter", "reborrow", "to_vec", "as_standard_layout", "into_dyn")
FUNCS = ("sqrt", "abs", "ln", "exp", "cos", "sin", "powi", "powf", "atan2", "neg")
AXIT = ("axis_iter", "axis_iter_mut", "outer_iter", "outer_iter_mut", "rows", "genrows", "rows_mut")


def soft(t):
    while t.op == "field" and t.a[1] in ("Some.0", "Ok.0"):
        # only for constructors that cannot fail on the shapes at hand; a payload of something else stays as it is
        if t.a[0].op == "call" or t.a[0].op == "ite":
            t = t.a[0]
        else:
            break
    return t


def axis(t):
    if t.op == "adt" and t.a[0].endswith("Axis"):
        v = dict(t.a[2]).get("0")
        if v is not None and v.op == "num":
            return int(v.a[0])
    if t.op == "call" and t.a[0].split("::")[-1] == "Axis" and t.a[1].op == "num":
        return int(t.a[1].a[0])
    return None


def pushed(E, t):
    """a list filled by one push per turn of a loop, as the sequence it is"""
    if t.op != "loopvar" or t not in E.loopinfo:
        return None
    init, step, lid = E.loopinfo[t]
    if step is None or step.op != "mut" or name(step) != "push" or step.a[2] is not t or lid not in E.lsrc:
        return None
    if not (init.op == "call" and name(init) in ("new", "with_capacity", "default") or init.op == "array" and not init.a):
        return None
    return mk("seq", E.lsrc[lid], step.a[3], boolt(1))


def name(t):
    return t.a[0].split("::")[-1] if t.op in ("call", "mut") else None


class Cells:
    def __init__(self, E, nums, atoms, hyp=None):
        self.E = E
        self.nums = nums
        self.atoms = atoms
        self.hyp = hyp
        self.used = set()
        self.bound = {}
        self.open = {}
        self.smemo = {}

    # ---- loops
    def bind(self, src, k):
        """the sources iterated in step k"""
        out = {}

        def go(s):
            out[s] = k
            s = pushed(self.E, s) or s
            out[s] = k
            if s.op == "zip":
                go(s.a[0]), go(s.a[1])
            elif s.op in ("enumerate", "iter", "copied", "cloned") or name(s) in ("enumerate", "iter", "into_iter", "iter_mut"):
                go(s.a[0] if s.op != "call" else s.a[1])
            elif s.op == "collect":
                go(s.a[0])
            elif s.op == "seq" and asb(s.a[2]) == 1:
                go(s.a[0])
        go(src)
        return out

    def length(self, s):
        s = pushed(self.E, s) or s
        if s.op == "zip":
            return min(self.length(s.a[0]), self.length(s.a[1]))
        if s.op in ("enumerate", "copied", "cloned", "collect") or s.op == "seq" and asb(s.a[2]) == 1:
            return self.length(s.a[0])
        if s.op == "adt" and s.a[0].split("::")[-1] == "Range":
            return max(0, self.num(proj(s, ("end",))) - self.num(proj(s, ("start",))))
        if s.op == "adt" and s.a[0].split("::")[-1] == "RangeInclusive":
            return max(0, self.num(proj(s, ("end",))) - self.num(proj(s, ("start",))) + 1)
        if s.op == "array":
            return len(s.a)
        if name(s) in AXIT:
            return self.shape(s.a[1])[self.iter_axis(s)]
        if name(s) in ("iter", "into_iter", "iter_mut", "enumerate"):
            return self.length(s.a[1])
        sh = self.shape(s)
        n = 1
        for x in sh:
            n *= x
        return n

    def iter_axis(self, s):
        if name(s) in ("axis_iter", "axis_iter_mut"):
            a = axis(s.a[2])
            if a is None:
                raise Unknown("axis of " + show(s, 3))
            return a
        return 0

    def inside(self, binding=None, loops=None):
        c = type(self)(self.E, self.nums, self.atoms, self.hyp)
        c.used = self.used
        c.bound = dict(self.bound, **{}) if not binding else {**self.bound, **binding}
        c.open = self.open if not loops else {**self.open, **loops}
        return c

    def item(self, s, k, idx):
        """cell idx of the k-th item of a source"""
        s = pushed(self.E, s) or s
        if s.op in ("collect", "copied", "cloned", "iter"):
            return self.item(s.a[0], k, idx)
        if s.op == "array":
            return self.at(s.a[k], idx)
        if s.op == "seq" and asb(s.a[2]) == 1:
            return self.inside(self.bind(s.a[0], k)).at(s.a[1], idx)
        if s.op == "adt" and s.a[0].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom"):
            return const(self.num(proj(s, ("start",))) + k)
        if name(s) in AXIT:
            a = self.iter_axis(s)
            return self.at(s.a[1], idx[:a] + (k,) + idx[a:])
        if name(s) in ("iter", "into_iter", "iter_mut"):
            return self.item(s.a[1], k, idx)
        sh = self.shape(s)
        if len(sh) == 1 + len(idx):
            return self.at(s, (k,) + idx)
        # element order of iter(): row major
        out = []
        for n in reversed(sh):
            out.append(k % n)
            k //= n
        return self.at(s, tuple(reversed(out)))

    # ---- scalars
    def num(self, t):
        v = self.value(t)
        if v is None:
            raise Unknown("value of " + show(t, 4)[:120])
        return int(v) if not isinstance(v, bool) and v.denominator == 1 else v

    def value(self, t):
        for _ in range(6):
            m = dict(self.nums)
            for x in subterms(t):
                if x in m:
                    continue
                r = None
                try:
                    if x.op == "elem" and x.a[0] in self.bound:
                        s = x.a[0]
                        if s.op == "adt" or s.op in ("collect", "seq", "array"):
                            r = self.item(s, self.bound[s], ())
                    elif x.op == "pos" and x.a[0] in self.bound:
                        r = const(self.bound[x.a[0]])
                    elif x.op == "index" and name(x.a[0]) in ("shape", "dim", "raw_dim") and x.a[1].op == "num":
                        r = const(self.shape(x.a[0].a[1])[int(x.a[1].a[0])])
                    elif x.op == "field" and name(x.a[0]) in ("dim", "raw_dim") and str(x.a[1]).isdigit():
                        r = const(self.shape(x.a[0].a[1])[int(x.a[1])])
                    elif name(x) == "nrows":
                        r = const(self.shape(x.a[1])[0])
                    elif name(x) == "ncols":
                        r = const(self.shape(x.a[1])[1])
                    elif name(x) == "len_of" and axis(x.a[2]) is not None:
                        r = const(self.shape(x.a[1])[axis(x.a[2])])
                    elif name(x) == "len" and len(x.a) == 2:
                        r = const(self.length(x.a[1]))
                    elif x.op == "loopvar" and x in self.E.loopinfo:
                        r = self.scalar_lv(x)
                except Unknown:
                    r = None
                if r is not None and r is not x:
                    m[x] = r
            n = subst(t, m)
            if n is t:
                break
            t = n
        return tab.value(t, self.nums)

    def scalar_lv(self, x):
        init, step, lid = self.E.loopinfo[x]
        if lid not in self.open or step is None:
            return None
        k = self.open[lid]
        if k == 0:
            return init
        if step.op in ("num", "bool"):
            return step
        d = sub(step, x)
        if d.op == "num" and init is not None:   # a counter
            return add(init, mul(d, const(k)))
        if self.hyp is None:
            v = self.before(lid, k).value(step)
            if v is not None:
                return boolt(1 if v else 0) if isinstance(v, bool) else const(v)
        return None

    def truth(self, cond):
        v = self.value(boolt(cond))
        if v is None:
            # what the result cannot depend on: no panic before
            v = self.value(boolt(no_panic(cond)))
        if v is None:
            raise Unknown("condition " + showb(cond)[:120])
        return bool(v)

    # ---- shapes
    def dims(self, t):
        """the shape given as tuple, array or Dim"""
        if t.op == "tuple" or t.op == "array":
            return tuple(self.num(x) for x in t.a)
        if t.op == "adt" and t.a[0].split("::")[-1] == "Dim":
            return self.dims(proj(t, ("index",)) if "index" in dict(t.a[2]) else dict(t.a[2])[next(iter(dict(t.a[2])))])
        if name(t) in ("Dim", "Ix1", "Ix2", "Ix3"):
            return self.dims(t.a[1]) if len(t.a) == 2 and t.a[1].op in ("array", "tuple") else tuple(self.num(x) for x in t.a[1:])
        if name(t) in ("raw_dim", "dim", "shape"):
            return self.shape(t.a[1])
        return (self.num(t),)

    def slices(self, t):
        """per axis: ('one', i) or ('range', lo, hi, step)"""
        s = t.a[2]
        if name(s) == "new_unchecked":
            s = s.a[1]
        if s.op not in ("array", "tuple"):
            raise Unknown("slice " + show(s, 3))
        sh = self.shape(t.a[1])
        out = []
        for r, n in zip(s.a, sh):
            if r.op == "adt":
                k, d = r.a[0].split("::")[-1], dict(r.a[2])
                neg = lambda v: v + n if v < 0 else v
                if k == "RangeFull":
                    out.append(("range", 0, n))
                elif k in ("Range", "RangeTo", "RangeFrom", "RangeInclusive", "RangeToInclusive"):
                    lo = neg(self.num(d["start"])) if "start" in d else 0
                    hi = neg(self.num(d["end"])) + (1 if "Inclusive" in k else 0) if "end" in d else n
                    if not 0 <= lo <= hi <= n:
                        raise Unknown("slice %d..%d of %d" % (lo, hi, n))
                    out.append(("range", lo, hi))
                else:
                    raise Unknown("slice part " + show(r, 3))
            elif proj(r, ("start",)) in self.nums and proj(r, ("end",)) in self.nums:
                lo, hi = self.num(proj(r, ("start",))), self.num(proj(r, ("end",)))
                if not 0 <= lo <= hi <= n:
                    raise Unknown("slice %d..%d of %d" % (lo, hi, n))
                out.append(("range", lo, hi))
            else:
                v = self.num(r)
                if not -n <= v < n:
                    raise Unknown("index %s of %d" % (v, n))
                out.append(("one", v + n if v < 0 else v))
        return out

    def shape(self, t):
        if t in self.atoms:
            return self.atoms[t]
        k = t
        if k in self.smemo:
            return self.smemo[k]
        try:
            r = self._shape(t)
        except (IndexError, TypeError, KeyError, AttributeError, ZeroDivisionError) as x:
            raise Unknown("shape of %s: %s" % (show(t, 4)[:200], x))
        self.smemo[k] = r
        return r

    def _shape(self, t):
        t0 = t
        t = soft(t)
        if t in self.atoms:
            return self.atoms[t]
        t = pushed(self.E, t) or t
        n = name(t)
        if t.op == "loopvar" and t in self.E.loopinfo:
            return self.shape(self.E.loopinfo[t][0])
        if t.op == "mut":
            return self.shape(t.a[2])
        if t.op == "upd":
            return self.shape(t.a[0])
        if t.op == "ite":
            return self.shape(t.a[1] if self.truth(t.a[0]) else t.a[2])
        if t.op in ("num", "tofloat", "toint"):
            return ()
        if t.op == "poly":
            best = ()
            for mono, co in t.a[0]:
                for x in mono:
                    best = self.bshape(best, self.shape(x))
            return best
        if t.op in ("fdiv", "mulop", "min", "max"):
            return self.bshape(self.shape(t.a[0]), self.shape(t.a[1]))
        if t.op == "index":
            return self.shape(t.a[0])[len(self.dims(t.a[1])):]
        if t.op == "call" and len(t.a) >= 2 and n in FUNCS:
            return self.shape(t.a[1])
        if t.op == "collect":
            return self.shape(t.a[0])
        if t.op == "seq":
            if asb(t.a[2]) != 1:
                raise Unknown("filtered " + show(t, 3))
            inner = self.inside(self.bind(t.a[0], 0))
            try:
                s = inner.shape(t.a[1])
            except Unknown:
                s = ()
            if s == ():
                b = pushed(self.E, t.a[0]) or t.a[0]
                while b.op in ("enumerate",) or name(b) in ("iter",):
                    b = b.a[0] if b.op == "enumerate" else b.a[1]
                if b.op not in ("zip", "adt", "seq", "collect", "array") and name(b) not in AXIT:
                    return self.shape(b)      # mapv keeps the shape
            return (self.length(t.a[0]),) + s
        if t.op == "array":
            return (len(t.a),) + self.shape(t.a[0])
        if t.op == "elem":
            s = pushed(self.E, t.a[0]) or t.a[0]
            if name(s) in AXIT:
                sh = self.shape(s.a[1])
                a = self.iter_axis(s)
                return sh[:a] + sh[a + 1:]
            if s.op in ("collect", "seq", "array"):
                return self.shape(s)[1:]
            if s.op == "adt":
                return ()
            return self.shape(s)[1:] if s in self.atoms and len(self.atoms[s]) == 1 else ()
        if t.op != "call":
            if self.value(t) is not None:
                return ()
            raise Unknown("shape of " + show(t0, 4)[:120])
        if n in ("sum", "norm"):
            return ()
        if n in ("zeros", "ones", "default"):
            return self.dims(t.a[1])
        if n == "from_elem" and "vec::" in t.a[0]:
            return (self.num(t.a[2]),) + self.shape(t.a[1])
        if n in ("from_elem", "from_shape_fn"):
            return self.dims(t.a[1])
        if n == "eye":
            k = self.num(t.a[1])
            return (k, k)
        if n == "linspace":
            return (self.num(t.a[3]),)
        if n in ("arr1", "arr2") or n in PASS:
            return self.shape(t.a[1])
        if n in ("slice", "slice_mut", "slice_move"):
            return tuple(x[2] - x[1] for x in self.slices(t) if x[0] == "range")
        if n in ("index_axis", "index_axis_mut", "index_axis_move"):
            sh, a = self.shape(t.a[1]), axis(t.a[2])
            return sh[:a] + sh[a + 1:]
        if n in ("row", "row_mut"):
            return self.shape(t.a[1])[1:]
        if n in ("column", "column_mut"):
            return self.shape(t.a[1])[:1]
        if n in ("sum_axis", "mean_axis"):
            sh, a = self.shape(t.a[1]), axis(t.a[2])
            return sh[:a] + sh[a + 1:]
        if n in ("t", "reversed_axes"):
            return tuple(reversed(self.shape(t.a[1])))
        if n == "dot":
            x, y = self.shape(t.a[1]), self.shape(t.a[2])
            if x[-1] != (y[0]):
                raise Unknown("dot of %s and %s" % (x, y))
            return x[:-1] + y[1:]
        if n in ("broadcast", "into_shape", "reshape", "to_shape", "into_shape_with_order"):
            d = self.dims(t.a[2])
            if n != "broadcast":
                a, b = 1, 1
                for v in d:
                    a *= v
                for v in self.shape(t.a[1]):
                    b *= v
                if a != b:
                    raise Unknown("shape %s into %s" % (self.shape(t.a[1]), d))
            return d
        if n == "insert_axis":
            sh, a = self.shape(t.a[1]), axis(t.a[2])
            return sh[:a] + (1,) + sh[a:]
        if n in ("stack", "concatenate"):
            a = axis(t.a[1])
            parts = self.shape(t.a[2])
            if n == "stack":
                return parts[1:][:a] + (parts[0],) + parts[1:][a:]
            ks = [self.inner_shape(t.a[2], k) for k in range(self.length1(t.a[2]))]
            return ks[0][:a] + (sum(x[a] for x in ks),) + ks[0][a + 1:]
        if self.value(t) is not None:
            return ()
        raise Unknown("shape of " + show(t0, 4)[:120])

    def length1(self, t):
        if t.op == "array":
            return len(t.a)
        return self.shape(t)[0]

    def inner_shape(self, t, k):
        if t.op == "array":
            return self.shape(t.a[k])
        return self.shape(t)[1:]

    def bshape(self, a, b):
        if len(a) < len(b):
            a, b = b, a
        b = (1,) * (len(a) - len(b)) + b
        out = []
        for x, y in zip(a, b):
            if x != y and x != 1 and y != 1:
                raise Unknown("shapes %s and %s" % (a, b))
            out.append(max(x, y))
        return tuple(out)

    # ---- cells
    def bat(self, t, idx):
        sh = self.shape(t)
        ix = idx[len(idx) - len(sh):]
        return self.at(t, tuple(0 if n == 1 else i for i, n in zip(ix, sh)))

    def at(self, t, idx):
        try:
            return self._at(t, idx)
        except (IndexError, TypeError, KeyError, AttributeError, ZeroDivisionError) as x:
            raise Unknown("cell %s of %s: %s" % (idx, show(t, 4)[:200], x))

    def _at(self, t, idx):
        idx = tuple(idx)
        if t in self.atoms:
            for i, n in zip(idx, self.atoms[t]):
                if not 0 <= i < n:
                    raise Unknown("cell %s of %s" % (idx, show(t, 3)))
            if len(idx) != len(self.atoms[t]):
                raise Unknown("cell %s of %s" % (idx, show(t, 3)))
            return mk("cell", t, *[const(i) for i in idx])
        t0 = t
        t = soft(t)
        if t in self.atoms:
            return self.at(t, idx)
        t = pushed(self.E, t) or t
        n = name(t)
        if t.op == "num":
            return t
        if t.op == "ite":
            return self.at(t.a[1] if self.truth(t.a[0]) else t.a[2], idx)
        if t.op == "loopvar" and t in self.E.loopinfo:
            return self.lv(t, idx)
        if t.op == "mut":
            return self.after(t, idx)
        if t.op == "upd" and all(isinstance(k, tuple) and k[0] == "ix" for k, _ in t.a[1]):
            hit = [(k, v) for k, v in t.a[1] if self.dims(k[1]) == idx[:len(self.dims(k[1]))]]
            if len(hit) > 1:
                raise Unknown("several writes to cell %s of %s" % (idx, show(t.a[0], 3)))
            return self.at(hit[0][1], idx[len(self.dims(hit[0][0][1])):]) if hit else self.at(t.a[0], idx)
        if t.op == "index" and t.a[1].op in ("num", "array", "tuple", "poly", "elem", "pos"):
            return self.at(t.a[0], self.dims(t.a[1]) + idx)
        if t.op == "poly":
            r = const(0)
            for mono, co in t.a[0]:
                p = const(co)
                for x in mono:
                    p = mul(p, self.bat(x, idx))
                r = add(r, p)
            return r
        if t.op == "fdiv":
            return fdiv(self.bat(t.a[0], idx), self.bat(t.a[1], idx))
        if t.op == "mulop":
            return mul(self.bat(t.a[0], idx), self.bat(t.a[1], idx))
        if t.op in ("collect", "array"):
            return self.item(t, idx[0], idx[1:]) if t.op == "array" else self.at(t.a[0], idx)
        if t.op == "seq":
            sh = self.shape(t)
            src = pushed(self.E, t.a[0]) or t.a[0]
            k = idx[0]
            rest = idx[1:]
            try:
                sl = self.shape(src) if src.op not in ("zip", "enumerate", "adt", "seq", "collect") and name(src) not in AXIT else None
            except Unknown:
                sl = None
            if sl is not None and len(sl) == len(sh) and len(sl) > 1:
                k = 0
                for i, m in zip(idx, sl):
                    k = k * m + i
                rest = ()
            return self.inside(self.bind(t.a[0], k)).at(t.a[1], rest)
        if t.op == "elem":
            if t.a[0] in self.bound:
                return self.item(t.a[0], self.bound[t.a[0]], idx)
            raise Unknown("item " + show(t, 3))
        if t.op != "call":
            v = self.value(t)
            if v is not None and not isinstance(v, bool):
                return const(v)
            if idx == ():
                return self.closed(t)
            raise Unknown("cell of " + show(t0, 4)[:120])
        if n in ("zeros", "default"):
            return const(0)
        if n == "ones":
            return const(1)
        if n == "from_elem" and "vec::" in t.a[0]:
            return self.at(t.a[1], idx[1:])
        if n == "from_elem":
            return self.at(t.a[2], ())
        if n == "eye":
            return const(1 if idx[0] == idx[1] else 0)
        if n == "linspace" and len(t.a) == 4:
            return mk("lin", self.at(t.a[1], ()), self.at(t.a[2], ()), const(self.num(t.a[3])), const(idx[0]))
        if n in PASS or n in ("arr1", "arr2"):
            return self.at(t.a[1], idx)
        if n in ("slice", "slice_move", "slice_mut"):
            out, j = [], 0
            for x in self.slices(t):
                if x[0] == "one":
                    out.append(x[1])
                else:
                    if not 0 <= idx[j] < x[2] - x[1]:
                        raise Unknown("cell %s of a slice" % (idx,))
                    out.append(x[1] + idx[j])
                    j += 1
            return self.at(t.a[1], tuple(out))
        if n in ("index_axis", "index_axis_move", "index_axis_mut"):
            a = axis(t.a[2])
            return self.at(t.a[1], idx[:a] + (self.num(t.a[3]),) + idx[a:])
        if n in ("row", "row_mut"):
            return self.at(t.a[1], (self.num(t.a[2]),) + idx)
        if n in ("column", "column_mut"):
            return self.at(t.a[1], idx + (self.num(t.a[2]),))
        if n in ("sum_axis", "mean_axis"):
            a = axis(t.a[2])
            m = self.shape(t.a[1])[a]
            r = const(0)
            for k in range(m):
                r = add(r, self.at(t.a[1], idx[:a] + (k,) + idx[a:]))
            return r if n == "sum_axis" else fdiv(r, const(m))
        if n == "sum" and len(t.a) == 2:
            sh = self.shape(t.a[1])
            r = const(0)
            todo = [()]
            for m in sh:
                todo = [i + (k,) for i in todo for k in range(m)]
            for i in todo:
                r = add(r, self.at(t.a[1], i))
            return r
        if n in ("t", "reversed_axes"):
            return self.at(t.a[1], tuple(reversed(idx)))
        if n == "dot":
            x, y = self.shape(t.a[1]), self.shape(t.a[2])
            ix, iy = idx[:len(x) - 1], idx[len(x) - 1:]
            r = const(0)
            for k in range(x[-1]):
                r = add(r, mul(self.at(t.a[1], ix + (k,)), self.at(t.a[2], (k,) + iy)))
            return r
        if n == "broadcast":
            return self.bat(t.a[1], idx)
        if n in ("into_shape", "reshape", "to_shape", "into_shape_with_order"):
            d = self.shape(t)
            k = 0
            for i, m in zip(idx, d):
                k = k * m + i
            out = []
            for m in reversed(self.shape(t.a[1])):
                out.append(k % m)
                k //= m
            return self.at(t.a[1], tuple(reversed(out)))
        if n == "insert_axis":
            a = axis(t.a[2])
            return self.at(t.a[1], idx[:a] + idx[a + 1:])
        if n == "stack":
            a = axis(t.a[1])
            return self.at(t.a[2], (idx[a],) + idx[:a] + idx[a + 1:])
        if n == "concatenate":
            a = axis(t.a[1])
            k = idx[a]
            for p in range(self.length1(t.a[2])):
                m = self.inner_shape(t.a[2], p)[a]
                if k < m:
                    return self.item(t.a[2], p, idx[:a] + (k,) + idx[a + 1:])
                k -= m
            raise Unknown("concatenate")
        v = self.value(t)
        if v is not None and not isinstance(v, bool):
            return const(v)
        # a function of each cell
        if len(t.a) >= 2 and n in FUNCS:
            args = [self.bat(x, idx) for x in t.a[1:]]
            return mk("call", n, *args)
        if n == "norm":
            return mk("norm", *[self.at(t.a[1], (k,)) for k in range(self.shape(t.a[1])[0])])
        if idx == ():
            return self.closed(t)
        raise Unknown("cell of " + show(t0, 4)[:120])

    def closed(self, t):
        """a scalar expression over items: items replaced by their cells"""
        m = {}
        for x in subterms(t):
            if x.op == "elem" and x.a[0] in self.bound:
                try:
                    m[x] = self.item(x.a[0], self.bound[x.a[0]], ())
                except Unknown:
                    pass
            elif x.op == "index" and x.a[1].op in ("num", "array", "tuple", "poly", "elem"):
                try:
                    i = self.dims(x.a[1])
                    m[x] = self.at(x.a[0], i)
                except Unknown:
                    pass
        r = subst(t, m)
        if r is t:
            raise Unknown("cell of " + show(t, 4)[:120])
        return tab._fold(r)

    # ---- writes
    def stores(self, view):
        return [e for e in self.E.events if e.kind == "call" and e.name in ("assign", "fill") and soft(e.args[0]) is view]

    def local(self, idx, t):
        """index inside the view t that shows cell idx of the array, or None"""
        n = name(t)
        if n == "slice_mut":
            out = []
            for x, i in zip(self.slices(t), idx):
                if x[0] == "one":
                    if i != x[1]:
                        return None
                else:
                    if not x[1] <= i < x[2]:
                        return None
                    out.append(i - x[1])
            return tuple(out)
        if n == "index_axis_mut":
            a = axis(t.a[2])
            return idx[:a] + idx[a + 1:] if idx[a] == self.num(t.a[3]) else None
        if n == "row_mut":
            return idx[1:] if idx[0] == self.num(t.a[2]) else None
        if n == "column_mut":
            return idx[:1] if idx[1] == self.num(t.a[2]) else None
        if n == "view_mut":
            return idx
        raise Unknown("view " + show(t, 3))

    def after(self, t, idx):
        """cell of an array after a write through a view"""
        n = name(t)
        A = t.a[2]
        if n == "fill" and t.a[1] == 0:
            return self.at(t.a[3], ())
        if n == "assign" and t.a[1] == 0:
            return self.bat(t.a[3], idx)
        if n in ("insert", "index_mut"):
            raise Unknown("write " + show(t, 3))
        view = mk("call", t.a[0], *t.a[2:])
        if n in AXIT or n in ("axis_iter_mut", "outer_iter_mut"):
            a = self.iter_axis(view)
            k = idx[a]
            it = elem(view)
            es = [e for e in self.E.events if e.kind == "call" and e.name in ("assign", "fill") and contains(e.args[0], lambda z: z is it)]
            ops = [e for e in self.E.events if e.kind == "assign_op" and contains(e.args[0], lambda z: z is it)]
            if not es and ops:
                # changed in place: what is left after the last change
                c = self.at_source(ops[0], view, k)
                ent = next((E_ for l, E_ in self.E.lentry.items() if self.E.lsrc.get(l) is ops[0].loops[-1]), 1)
                hit = [e for e in ops if c.truth(brestrict(e.cond, ent))]
                return c.bat(hit[-1].args[0], idx[:a] + idx[a + 1:]) if hit else c.at(A, idx)
            if not es or ops:
                raise Unknown("write " + show(t, 3))
            return self.stored(es, idx[:a] + idx[a + 1:], self.at_source(es[0], view, k), A, idx)
        loc = self.local(idx, view)
        if loc is None:
            return self.at(A, idx)
        es = self.stores(view)
        if not es:
            raise Unknown("nothing is stored through " + show(view, 3))
        return self.stored(es, loc, self, A, idx)

    def turn(self, src, k):
        """iteration k of the loop over src"""
        ls = {lid: k for lid, s in self.E.lsrc.items() if s is src}
        return self.inside(self.bind(src, k), ls)

    def at_source(self, e, src, k):
        for lid, s in self.E.lsrc.items():
            b = self.bind(s, k)
            if src in b:
                return self.inside(b, {lid: k})
        raise Unknown("loop over " + show(src, 3))

    def stored(self, es, loc, ctx, A, idx):
        hit = [e for e in es if ctx.truth(e.cond)]
        if not hit:
            return ctx.at(A, idx)
        e = hit[-1]
        return ctx.bat(e.args[1], loc) if e.name == "assign" else ctx.at(e.args[1], ())

    def lv(self, t, idx):
        init, step, lid = self.E.loopinfo[t]
        if lid in self.open:
            k = self.open[lid]
            if k == 0:
                return self.at(init, idx)
            if self.hyp is None:
                return self.before(lid, k).at(step, idx)
            v = self.hyp(t, k, idx)
            if v is None:
                raise Unknown("value carried over from the iteration before: " + show(t, 3))
            self.used.add(t)
            return v
        # after the loop: the iteration that writes this cell
        src = self.E.lsrc.get(lid)
        found = []
        for k in range(self.turns(lid, t)):
            c = self.step_of(lid, k)
            w = c.writes(step, t, idx)
            if w:
                found.append((k, c))
        if not found:
            return self.at(init, idx)
        k, c = found[-1]
        return c.at(step, idx)

    def before(self, lid, k):
        """the end of the iteration before: loops inside this one are over"""
        c = self.step_of(lid, k - 1)
        op = {}
        for l, v in c.open.items():
            op[l] = v
            if l is lid:
                break
        c.open = op
        return c

    def turns(self, lid, t):
        if lid in self.E.lsrc:
            return self.length(self.E.lsrc[lid])
        # a loop driven by a counter: its guard is part of the condition of each store
        if not any(v[2] is lid and v[1] is not None and sub(v[1], l).op == "num" and sub(v[1], l).a[0] > 0 for l, v in self.E.loopinfo.items()):
            raise Unknown("loop of " + show(t, 3))
        return 1 + max(self.shape(t) + (0,))

    def step_of(self, lid, k):
        return self.inside(self.bind(self.E.lsrc[lid], k) if lid in self.E.lsrc else {}, {lid: k})

    def writes(self, step, t, idx):
        """does this iteration write the cell?"""
        if step is t:
            return False
        if step.op == "mut":
            view = mk("call", step.a[0], *step.a[2:])
            n = name(step)
            if n in ("fill", "assign"):
                return True
            if self.local(idx, view) is not None and any(self.truth(e.cond) for e in self.stores(view)):
                return True
            return self.writes(step.a[2], t, idx)
        if step.op == "upd" and all(isinstance(k, tuple) and k[0] == "ix" for k, _ in step.a[1]):
            return any(self.dims(k[1]) == idx[:len(self.dims(k[1]))] for k, _ in step.a[1]) or self.writes(step.a[0], t, idx)
        if step.op == "ite":
            return self.writes(step.a[1] if self.truth(step.a[0]) else step.a[2], t, idx)
        if step.op == "loopvar" and step in self.E.loopinfo:
            init, st, lid = self.E.loopinfo[step]
            if lid not in self.open:
                for k in range(self.turns(lid, step)):
                    if self.step_of(lid, k).writes(st, step, idx):
                        return True
                return self.writes(init, t, idx)
        return True
