"""Array-valued readings of extracted terms: the formula found in the source is looked at as a function of its
inputs and compared, as a formula, with the one required (identity of formulas at sample points, as in rotate.py)."""
import math
from conc import *
import conc

APASS = conc.PASS + ("view", "into_shared", "to_shared", "into_owned", "view_mut", "arr1", "from_vec", "into_dyn", "as_standard_layout", "into_raw_vec", "as_slice_mut", "into_dimensionality", "rows", "outer_iter", "genrows", "as_slice_memory_order", "aview1", "Dim", "reborrow")
UNARY = {"cos": math.cos, "sin": math.sin, "tan": math.tan, "sqrt": lambda x: math.sqrt(x), "abs": abs, "neg": lambda x: -x, "exp": math.exp, "ln": math.log, "recip": lambda x: 1.0 / x, "to_radians": math.radians}


def isarr(v):
    return isinstance(v, list)


def shape(v):
    return (len(v),) + (shape(v[0]) if v else ()) if isarr(v) else ()


def bmap(f, a, b):
    """broadcasting application"""
    if not isarr(a) and not isarr(b):
        return f(a, b)
    sa, sb = shape(a), shape(b)
    if len(sa) < len(sb) and sb:
        return [bmap(f, a, y) for y in b]
    if len(sb) < len(sa):
        return [bmap(f, x, b) for x in a]
    if len(a) == len(b):
        return [bmap(f, x, y) for x, y in zip(a, b)]
    if len(a) == 1:
        return [bmap(f, a[0], y) for y in b]
    if len(b) == 1:
        return [bmap(f, x, b[0]) for x in a]
    raise Unknown("shapes %s and %s" % (sa, sb))


def amap(f, a):
    return [amap(f, x) for x in a] if isarr(a) else f(a)


def flat(a):
    return [y for x in a for y in flat(x)] if isarr(a) else [a]


def reshape(fl, sh):
    if len(sh) == 0:
        return fl[0]
    n = len(fl) // sh[0] if sh[0] else 0
    if sh[0] * n != len(fl):
        raise Unknown("reshape to %s" % (sh,))
    return [reshape(fl[i * n:(i + 1) * n], sh[1:]) for i in range(sh[0])]


def transpose(a):
    s = shape(a)
    if len(s) < 2:
        return a
    if len(s) > 2:
        raise Unknown("transpose")
    return [[a[i][j] for i in range(s[0])] for j in range(s[1])]


def along(a, ax):
    """the sub-arrays along an axis"""
    if ax == 0:
        return list(a)
    s = shape(a)
    if ax >= len(s):
        raise Unknown("axis")
    return [[along(x, ax - 1)[k] for x in a] for k in range(s[ax])]


def stackax(xs, ax):
    if ax == 0:
        return list(xs)
    return [stackax([x[i] for x in xs], ax - 1) for i in range(len(xs[0]))]


def concatax(xs, ax):
    if ax == 0:
        return [y for x in xs for y in x]
    return [concatax([x[i] for x in xs], ax - 1) for i in range(len(xs[0]))]


def dot(a, b):
    sa, sb = shape(a), shape(b)
    if len(sa) == 1 and len(sb) == 1:
        if sa != sb:
            raise Unknown("dot of %s and %s" % (sa, sb))
        return sum(x * y for x, y in zip(a, b))
    if len(sa) == 1:
        return [dot(a, y) for y in transpose(b)]
    if len(sb) == 1:
        return [dot(x, b) for x in a]
    bt = transpose(b)
    return [[dot(x, y) for y in bt] for x in a]


def gauss(m, rhs):
    """solution of m x = rhs (rhs with several columns)"""
    n = len(m)
    if any(len(r) != n for r in m):
        raise Unknown("not square")
    w = [[float(x) for x in m[i]] + [float(x) for x in rhs[i]] for i in range(n)]
    for i in range(n):
        p = max(range(i, n), key=lambda r: abs(w[r][i]))
        if abs(w[p][i]) < 1e-12:
            raise Unknown("singular")
        w[i], w[p] = w[p], w[i]
        for r in range(n):
            if r != i:
                f = w[r][i] / w[i][i]
                w[r] = [x - f * y for x, y in zip(w[r], w[i])]
    return [[x / w[i][i] for x in w[i][n:]] for i in range(n)]


def inv(m):
    n = len(m)
    return gauss(m, [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)])


def rank(m):
    w = [[float(x) for x in r] for r in m]
    rk = 0
    for col in range(len(w[0]) if w else 0):
        p = max(range(rk, len(w)), key=lambda r: abs(w[r][col]), default=None)
        if p is None or abs(w[p][col]) < 1e-9:
            continue
        w[rk], w[p] = w[p], w[rk]
        for r in range(rk + 1, len(w)):
            f = w[r][col] / w[rk][col]
            w[r] = [x - f * y for x, y in zip(w[r], w[rk])]
        rk += 1
    return rk


def ordkey(v):
    if isinstance(v, Rec) and len(v) == 1:
        return ordkey(next(iter(v.values())))
    if isinstance(v, (int, float, Fraction)):
        return v
    raise Unknown("order")


class Geo(Conc):
    def num(self, t):
        v = self(t)
        if isinstance(v, bool) or not isinstance(v, (int, Fraction, float)):
            raise Unknown("no number: " + show(t, 3)[:80])
        return v

    def any(self, t):
        v = self(t)
        if isinstance(v, bool) or not isinstance(v, (int, Fraction, float, list)):
            raise Unknown("no number or array: " + show(t, 3)[:80])
        return v

    def axis(self, t):
        v = self(t)
        v = v.get("0") if isinstance(v, Rec) else v
        if not isinstance(v, int):
            raise Unknown("axis")
        return v

    def ext(self, t):
        v = self(t)
        while isinstance(v, Rec) and "0" in v:
            v = v["0"]
        if isinstance(v, (list, tuple)):
            return tuple(int(x) for x in v)
        if isinstance(v, int):
            return (v,)
        raise Unknown("shape")

    def slice_(self, a, parts):
        """parts: terms, one per axis"""
        if not parts:
            return a
        r, n = parts[0], len(a)
        if r.op == "adt" and r.a[0].split("::")[-1] in ("RangeFull", "Range", "RangeTo", "RangeFrom", "RangeInclusive", "RangeToInclusive"):
            k, d = r.a[0].split("::")[-1], dict(r.a[2])
            neg = lambda v: v + n if v < 0 else v
            lo = neg(self.num(d["start"])) if "start" in d else 0
            hi = neg(self.num(d["end"])) + (1 if "Inclusive" in k else 0) if "end" in d else n
            if not 0 <= lo <= hi <= n:
                raise Unknown("slice %s..%s of %s" % (lo, hi, n))
            return [self.slice_(x, parts[1:]) for x in a[lo:hi]]
        if r.op == "adt":
            raise Unknown("slice part " + show(r, 3)[:80])
        i = self.num(r)
        i = i + n if i < 0 else i
        if not 0 <= i < n:
            raise Unknown("index %s of %d" % (i, n))
        return self.slice_(a[i], parts[1:])

    def ev(self, t):
        o, a = t.op, t.a
        if o == "poly":
            s = 0
            for mono, co in a[0]:
                p = co
                for x in mono:
                    p = bmap(lambda u, w: u * w, p, self.any(x))
                s = bmap(lambda u, w: u + w, s, p)
            if isarr(s):
                return s
            return int(s) if Fraction(s).denominator == 1 and abs(s) < 2 ** 50 and not isinstance(s, float) else s
        if o == "fdiv":
            x, y = self.any(a[0]), self.any(a[1])
            try:
                return bmap(lambda u, w: u / w if isinstance(u, float) or isinstance(w, float) else Fraction(u) / w, x, y)
            except ZeroDivisionError:
                raise Unknown("division by zero")
        if o == "norm":
            return math.sqrt(sum(self.num(x) ** 2 for x in a))
        if o == "fold":
            v = self(a[1])
            for m in self.items(a[0]):
                v = self.within({**m, a[3]: v}, lambda: self(a[2]))
            return v
        if o == "upd":
            v = self(a[0])
            if isinstance(v, list):
                out = list(v)
                for k, x in a[1] if isinstance(a[1], (tuple, list)) else ():
                    if not (isinstance(k, tuple) and k[0] == "ix"):
                        raise Unknown("update of " + show(a[0], 3)[:80])
                    i = self(k[1])
                    out = self.put(out, i.get("0", i) if isinstance(i, Rec) else i, self(x))
                return out
        if o == "index":
            l, k = self(a[0]), self(a[1])
            if isinstance(k, Rec):
                k = k.get("0", k)
            if isinstance(l, list) and isinstance(k, (list, tuple)):
                for i in k:
                    if not isinstance(l, list) or not 0 <= i < len(l):
                        raise Unknown("index")
                    l = l[i]
                return l
        if o == "adt" and a[0].split("::")[-1] == "FromTo" and {"iter", "from", "to"} <= set(dict(a[2])):
            d = dict(a[2])
            lo, hi = self.num(d["from"]), self.num(d["to"])
            return [x for i, x in self(d["iter"]) if i + lo < hi]
        if o == "adt" and a[0].split("::")[-1] in ("Axis",):
            return Rec("Axis", **{"0": self(dict(a[2])["0"])})
        return Conc.ev(self, t)

    def put(self, l, k, x):
        l = list(l)
        if isinstance(k, (list, tuple)):
            if len(k) == 1:
                k = k[0]
            else:
                l[k[0]] = self.put(l[k[0]], k[1:], x)
                return l
        if not isinstance(k, int) or not 0 <= k < len(l):
            raise Unknown("update index")
        l[k] = x
        return l

    def call(self, t, n, a):
        if n in APASS and len(a) == 1:
            return self(a[0])
        if n in UNARY and len(a) == 1:
            try:
                return amap(lambda x: UNARY[n](x), self.any(a[0]))
            except (ValueError, OverflowError, ZeroDivisionError):
                raise Unknown(n)
        if n in ("inv", "inv_into") and len(a) == 1:
            return Rec("Ok", **{"0": inv(self(a[0]))})
        if n in ("solve", "solve_into", "solve_t", "solve_t_into") and len(a) == 2:
            m, r = self(a[0]), self(a[1])
            m = transpose(m) if "_t" in n else m
            return Rec("Ok", **{"0": [x[0] for x in gauss(m, [[y] for y in r])]})
        if n in ("t", "reversed_axes") and len(a) == 1:
            return transpose(self(a[0]))
        if n == "dot" and len(a) == 2:
            return dot(self(a[0]), self(a[1]))
        if n in ("slice", "slice_mut", "slice_move", "slice_collapse", "slice_axis") and len(a) == 2:
            s = a[1]
            if s.op == "call" and name(s) == "new_unchecked":
                s = s.a[1]
            if s.op not in ("array", "tuple"):
                raise Unknown("slice")
            return self.slice_(self(a[0]), list(s.a))
        if n in ("stack", "concatenate") and len(a) == 2:
            xs = list(self(a[1]))
            if not xs or len(set(map(len, map(shape, xs)))) != 1:
                raise Unknown(n)
            if n == "stack" and len(set(map(shape, xs))) != 1:
                raise Unknown("stack of different shapes")
            return Rec("Ok", **{"0": (stackax if n == "stack" else concatax)(xs, self.axis(a[0]))})
        if n == "broadcast" and len(a) == 2:
            sh = self.ext(a[1])
            v = self(a[0])
            z = reshape([0] * math.prod(sh), sh)
            r = bmap(lambda x, y: x, v, z)
            if shape(r) != sh:
                return None_
            return Some(r)
        if n in ("shape", "raw_dim", "dim"):
            s = shape(self(a[0]))
            return list(s) if n != "dim" or len(s) > 1 else s[0]
        if n in ("nrows", "ncols", "len_of", "len", "ndim") and a:
            v = self(a[0])
            if isarr(v) and n != "len":
                s = shape(v)
                return {"nrows": lambda: s[0], "ncols": lambda: s[1], "len_of": lambda: s[self.axis(a[1])], "ndim": lambda: len(s)}[n]()
        if n in ("to_shape", "into_shape", "reshape", "into_shape_with_order") and len(a) == 2:
            v, sh = flat(self(a[0])), self.ext(a[1])
            if math.prod(sh) != len(v):
                return Rec("Err")
            r = reshape(v, sh)
            return r if n == "reshape" else Rec("Ok", **{"0": r})
        if n in ("from_shape_vec",) and len(a) == 2:
            v, sh = flat(self(a[1])), self.ext(a[0])
            if math.prod(sh) != len(v):
                return Rec("Err")
            return Rec("Ok", **{"0": reshape(v, sh)})
        if n in ("axis_iter", "lanes") and len(a) == 2:
            return along(self(a[0]), self.axis(a[1]))
        if n in ("columns", "gencolumns"):
            return along(self(a[0]), 1)
        if n in ("row", "column", "index_axis", "index_axis_move", "subview"):
            v = self(a[0])
            ax, k = (0, a[1]) if n == "row" else (1, a[1]) if n == "column" else (self.axis(a[1]), a[2])
            xs, k = along(v, ax), self.num(k)
            if not 0 <= k < len(xs):
                raise Unknown("index")
            return xs[k]
        if n in ("insert_axis",):
            v, ax = self(a[0]), self.axis(a[1])
            return [v] if ax == 0 else stackax([v], ax)
        if n in ("zeros", "ones", "default") and len(a) == 1 and a[0].op != "ty":
            sh = self.ext(a[0])
            return reshape([0 if n != "ones" else 1] * math.prod(sh), sh)
        if n == "from_elem" and len(a) == 2 and "ndarray" in t.a[0]:
            sh = self.ext(a[0])
            return reshape([self(a[1])] * math.prod(sh), sh)
        if n in ("norm", "norm_l2") and len(a) == 1:
            return math.sqrt(sum(x * x for x in flat(self(a[0]))))
        if n in ("powi", "powf", "pow") and len(a) == 2:
            k = self(a[1])
            return amap(lambda x: x ** k, self.any(a[0]))
        if n in ("hypot", "atan2") and len(a) == 2:
            return getattr(math, n)(self.num(a[0]), self.num(a[1]))
        if n in ("sin_cos",):
            x = self.num(a[0])
            return (math.sin(x), math.cos(x))
        if n in ("max", "min") and len(a) == 2:
            v = [self(x) for x in a]
            if all(isinstance(x, (int, float, Fraction)) for x in v):
                return max(v) if n == "max" else min(v)
        if n in ("max", "min", "max_skipnan", "min_skipnan") and len(a) == 1:
            v = self(a[0])
            if isarr(v) and v:
                r = (max if n.startswith("max") else min)(flat(v))
                return r if "skipnan" in n else Rec("Ok", **{"0": r})
        if n in ("sum", "mean") and len(a) == 1:
            v = flat(self(a[0]))
            return sum(v) if n == "sum" else Some(sum(v) / len(v))
        if n in ("to_f32", "to_f64", "to_usize", "to_u64") and len(a) == 1:
            v = self.num(a[0])
            return Some(v if "f" in n else int(v))
        if n in ("div_floor", "div_ceil", "mod_floor"):
            x, y = self.num(a[0]), self.num(a[1])
            return {"div_floor": x // y, "div_ceil": -(-x // y), "mod_floor": x % y}[n]
        if n == "cov" and len(a) == 2:
            # rows are the variables
            m, dd = self(a[0]), self.num(a[1])
            if len(shape(m)) != 2 or shape(m)[1] <= dd:
                raise Unknown("cov")
            mu = [float(sum(r)) / len(r) for r in m]
            return Rec("Ok", **{"0": [[sum((x - u) * (y - w) for x, y in zip(r, q)) / (len(r) - float(dd)) for q, w in zip(m, mu)] for r, u in zip(m, mu)]})
        if n in ("cholesky", "cholesky_into") and len(a) == 2 and a[1].op == "adt" and a[1].a[1] in ("Lower", "Upper"):
            m = self(a[0])
            k = len(m)
            if shape(m) != (k, k):
                raise Unknown(n)
            L = [[0.0] * k for _ in range(k)]
            for i in range(k):
                for j in range(i + 1):
                    s = m[i][j] - sum(L[i][q] * L[j][q] for q in range(j))
                    L[i][j] = math.sqrt(s) if i == j else s / L[j][j]
            return Rec("Ok", **{"0": L if a[1].a[1] == "Lower" else transpose(L)})
        if n == "linspace" and len(a) == 3:
            x, y, k = self.num(a[0]), self.num(a[1]), self.num(a[2])
            return [x + (y - x) * i / float(k - 1) for i in range(k)] if k > 1 else [x]
        if n in ("argmin", "argmax") and len(a) == 1:
            v = self(a[0])
            if not isarr(v) or not v or isarr(v[0]):
                raise Unknown(n)
            return Rec("Ok", **{"0": v.index((min if n == "argmin" else max)(v))})
        if n == "indexed_iter" and len(a) == 1:
            v = self(a[0])
            if len(shape(v)) != 1:
                raise Unknown(n)
            return list(enumerate(v))
        if n in ("any", "all") and len(a) == 1:
            v = flat(self(a[0]))
            return any(v) if n == "any" else all(v)
        return Conc.call(self, t, n, a)

    def mut(self, t, n, i, a):
        if i == 0 and n in ("scaled_add",) and len(a) == 3:
            x, f, y = self(a[0]), self.num(a[1]), self(a[2])
            return bmap(lambda u, w: u + f * w, x, y)
        if i == 0 and n == "fill" and len(a) == 2:
            v = self(a[1])
            return amap(lambda _: v, self(a[0]))
        if i == 0 and n == "assign" and len(a) == 2:
            return bmap(lambda u, w: w, self(a[0]), self(a[1]))
        if i == 0 and n in ("axis_iter_mut", "outer_iter_mut", "rows_mut"):
            view = mk("call", t.a[0], *t.a[2:])
            ax = self.axis(a[1]) if n == "axis_iter_mut" else 0
            it = mk("elem", view)
            es = [e for e in self.E.events if e.args and e.args[0] is it and (e.kind in ("elementwise", "assign_op") or e.kind == "call" and e.name in ("assign", "fill"))]
            if len(es) != 1 or not es[0].loops or es[0].loops[-1] is not view:
                raise Unknown("writes through " + show(view, 3)[:80])
            e = es[0]
            out = []
            for k, x in enumerate(along(self(a[0]), ax)):
                def one():
                    if not self.truth(e.cond):
                        return x
                    if e.kind == "elementwise":
                        return self(e.args[1])
                    v = self(e.args[1])
                    if e.kind == "call":
                        return bmap(lambda u, w: w, x, v)
                    f = {"add_assign": lambda u, w: u + w, "sub_assign": lambda u, w: u - w, "mul_assign": lambda u, w: u * w, "div_assign": lambda u, w: u / w}.get(e.name)
                    if f is None:
                        raise Unknown(e.name)
                    return bmap(f, x, v)
                out.append(self.within({it: x, pos(view): k}, one))
            return stackax(out, ax)
        if i == 0 and n in ("bitand_assign", "bitor_assign") and len(a) == 2:
            return bmap(lambda u, w: (u and w) if n == "bitand_assign" else (u or w), self(a[0]), self(a[1]))
        if i == 0 and n in ("sort", "sort_unstable") and len(a) == 1:
            return sorted(self(a[0]), key=ordkey)
        return Conc.mut(self, t, n, i, a)
