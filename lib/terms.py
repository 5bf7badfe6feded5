"""Hash-consed value terms and a small ROBDD for path conditions.

Values are symbolic expressions computed by a forward dataflow pass over MIR (value numbering);
nothing is executed and no solver is involved.  Conditions are reduced ordered BDDs over atomic
comparison / variant-test terms, so two conditions are equal iff they are the same function of
their atoms.
"""
from fractions import Fraction


class T:
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def _eta(a):
    """struct literal that copies every field of one value is that value (derived Clone, rebuilds)"""
    fs = a[2]
    if a[1] not in (None, "", a[0].split("::")[-1]) or not fs or (len(fs) == 1 and fs[0][0] == "0"):
        return None
    v0 = fs[0][1]
    if v0.op != "field":
        return None
    x = v0.a[0]
    for k, v in fs:
        if v.op != "field" or v.a[0] is not x or v.a[1] != k:
            return None
    return x


def mk(op, *a):
    if op == "adt":
        x = _eta(a)
        if x is not None:
            return x
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


UNDEF = mk("undef")
UNIT = mk("tuple")


def const(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, int):
        return mk("num", Fraction(v))
    if isinstance(v, Fraction):
        return mk("num", v)
    return mk("lit", v)


def sym(n):
    return mk("sym", n)


# ---------------------------------------------------------------- BDD
# node: 0 = False, 1 = True, n>=2 -> (var, lo, hi)
_bn = [None, None]
_bu = {}
_vars = []          # index -> atom term
_vidx = {}          # atom term -> index
_ite_cache = {}


def _node(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _bu.get(k)
    if n is None:
        n = len(_bn)
        _bn.append(k)
        _bu[k] = n
    return n


def bvar(atom):
    i = _vidx.get(atom)
    if i is None:
        i = len(_vars)
        _vidx[atom] = i
        _vars.append(atom)
    return _node(i, 0, 1)


def bite(f, g, h):
    if f == 1:
        return g
    if f == 0:
        return h
    if g == h:
        return g
    if g == 1 and h == 0:
        return f
    k = (f, g, h)
    r = _ite_cache.get(k)
    if r is not None:
        return r
    v = min(_bn[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _bn[x][0] == v:
            return _bn[x][2] if b else _bn[x][1]
        return x

    r = _node(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _ite_cache[k] = r
    return r


def band(*xs):
    r = 1
    for x in xs:
        r = bite(r, x, 0)
    return r


def bor(*xs):
    r = 0
    for x in xs:
        r = bite(r, 1, x)
    return r


def bnot(x):
    return bite(x, 0, 1)


def bimp(a, b):
    """a implies b (as Boolean functions of their atoms)"""
    return bite(a, b, 1) == 1


def bsupport(f, seen=None):
    out = set()
    st = [f]
    seen = set()
    while st:
        x = st.pop()
        if x < 2 or x in seen:
            continue
        seen.add(x)
        v, lo, hi = _bn[x]
        out.add(_vars[v])
        st += [lo, hi]
    return out


def bcompose(f, sub):
    """replace atoms by BDDs; sub: atom -> bdd"""
    memo = {}

    def go(x):
        if x < 2:
            return x
        if x in memo:
            return memo[x]
        v, lo, hi = _bn[x]
        at = _vars[v]
        c = sub.get(at)
        if c is None:
            c = _node(v, 0, 1)
        r = bite(c, go(hi), go(lo))
        memo[x] = r
        return r

    return go(f)


def bexists(f, pred):
    for at in list(bsupport(f)):
        if pred(at):
            f = bor(bcompose(f, {at: 0}), bcompose(f, {at: 1}))
    return f


def brestrict(f, c):
    """simplify f under care set c (Coudert-Madre restrict)"""
    if c == 0:
        return 0
    memo = {}

    def go(f, c):
        if f < 2 or c == 1:
            return f
        if c == 0:
            return 0
        k = (f, c)
        if k in memo:
            return memo[k]
        vf = _bn[f][0]
        vc = _bn[c][0]
        if vc < vf:
            r = go(f, bor(_bn[c][1], _bn[c][2]))
        else:
            v = vf
            c0, c1 = (_bn[c][1], _bn[c][2]) if vc == v else (c, c)
            if c0 == 0:
                r = go(_bn[f][2], c1)
            elif c1 == 0:
                r = go(_bn[f][1], c0)
            else:
                r = _node(v, go(_bn[f][1], c0), go(_bn[f][2], c1))
        memo[k] = r
        return r

    return go(f, c)


def boolt(n):
    if n > 1 and _bn[n][1] == 0 and _bn[n][2] == 1:
        a = _vars[_bn[n][0]]
        if a.op in ("field", "sym", "loopvar"):
            return a            # a plain boolean place
    return mk("bool", n)


TRUE = boolt(1)
FALSE = boolt(0)


def asb(t):
    """BDD of a boolean term"""
    if t.op == "bool":
        return t.a[0]
    if t.op == "ite":
        return bite(t.a[0], asb(t.a[1]), asb(t.a[2]))
    if t.op == "num":
        return 1 if t.a[0] != 0 else 0
    return bvar(t)


def bpaths(f, limit=64):
    """list of cubes [(atom, bool)...]"""
    out = []

    def go(x, acc):
        if len(out) >= limit:
            return
        if x == 0:
            return
        if x == 1:
            out.append(list(acc))
            return
        v, lo, hi = _bn[x]
        go(hi, acc + [(_vars[v], True)])
        go(lo, acc + [(_vars[v], False)])

    go(f, [])
    return out


# ---------------------------------------------------------------- ite
def ite(c, a, b, depth=0):
    if c == 1 or a is b:
        return a
    if c == 0:
        return b
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if a.op == "bool" or b.op == "bool":
        if a.op in ("bool", "ite") or b.op in ("bool", "ite"):
            try:
                return boolt(bite(c, asb(a), asb(b)))
            except Exception:
                pass
    if a.op == "ite":
        if bimp(c, a.a[0]):
            return ite(c, a.a[1], b)
        if bimp(c, bnot(a.a[0])):
            return ite(c, a.a[2], b)
        if a.a[2] is b:
            return ite(band(c, a.a[0]), a.a[1], b)
        if a.a[1] is b:
            return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == "ite":
        nc = bnot(c)
        if bimp(nc, b.a[0]):
            return ite(c, a, b.a[1])
        if bimp(nc, bnot(b.a[0])):
            return ite(c, a, b.a[2])
        if b.a[1] is a:
            return ite(bor(c, b.a[0]), a, b.a[2])
        if b.a[2] is a:
            return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if depth < 12:
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]):
            bd = dict(b.a[2])
            if all(k in bd for k, _ in a.a[2]):
                return mk("adt", a.a[0], a.a[1], tuple((k, ite(c, v, bd[k], depth + 1)) for k, v in a.a[2]))
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            return mk("tuple", *[ite(c, x, y, depth + 1) for x, y in zip(a.a, b.a)])
        if a.op == "upd" or b.op == "upd":
            ba, da = (a.a[0], dict(a.a[1])) if a.op == "upd" else (a, {})
            bb, db = (b.a[0], dict(b.a[1])) if b.op == "upd" else (b, {})
            if ba is bb:
                ks = set(da) | set(db)
                m = {}
                for k in ks:
                    x = da.get(k)
                    y = db.get(k)
                    if x is None:
                        x = proj1(ba, k)
                    if y is None:
                        y = proj1(ba, k)
                    m[k] = ite(c, x, y, depth + 1)
                return mkupd(ba, m)
    return mk("ite", c, a, b)


def leaves(t, c=1):
    """[(cond, leaf)] of an ite tree"""
    if t.op == "ite":
        return leaves(t.a[1], band(c, t.a[0])) + leaves(t.a[2], band(c, bnot(t.a[0])))
    return [(c, t)]


def nleaves(t):
    if t.op == "ite":
        return nleaves(t.a[1]) + nleaves(t.a[2])
    return 1


def mapite(t, f, limit=16):
    if t.op == "ite" and nleaves(t) <= limit:
        return ite(t.a[0], mapite(t.a[1], f, limit), mapite(t.a[2], f, limit))
    return f(t)


# ---------------------------------------------------------------- projections / updates
def _ks(k):
    return k if isinstance(k, str) else "[%d]" % k[1].id


def mkupd(base, m):
    m = {k: v for k, v in m.items() if proj1(base, k) is not v}
    if not m:
        return base
    if base.op == "adt":
        d = dict(base.a[2])
        ok = True
        for k in m:
            kk = vkey(base, k)
            if kk not in d:
                ok = False
        if ok:
            for k, v in m.items():
                d[vkey(base, k)] = v
            return mk("adt", base.a[0], base.a[1], tuple((k, d[k]) for k, _ in base.a[2]))
    if base.op == "tuple":
        try:
            l = list(base.a)
            for k, v in m.items():
                l[int(k)] = v
            return mk("tuple", *l)
        except Exception:
            pass
    if base.op == "upd":
        d = dict(base.a[1])
        d.update(m)
        return mkupd(base.a[0], d)
    return mk("upd", base, tuple(sorted(m.items(), key=lambda kv: _ks(kv[0]))))


def vkey(adt, k):
    if isinstance(k, str) and "." in k:
        v, f = k.split(".", 1)
        if v == adt.a[1]:
            return f
        return None
    return k


def proj1(t, k):
    """project one step; k is a field name, 'Variant.field', or ('ix', idxterm)"""
    op = t.op
    if t is UNDEF:
        return UNDEF
    if op == "upd":
        d = dict(t.a[1])
        if k in d:
            return d[k]
        if not isinstance(k, str) and any(not isinstance(x, str) for x in d):
            if not (k[1].op == "num" and all(isinstance(x, str) or x[1].op == "num" for x in d)):
                return mk("index", t, k[1])
        return proj1(t.a[0], k)
    if op == "adt" and isinstance(k, str):
        kk = vkey(t, k)
        if kk is None:
            return UNDEF
        d = dict(t.a[2])
        if kk in d:
            return d[kk]
        return mk("field", t, k)
    if op == "tuple" and isinstance(k, str):
        try:
            return t.a[int(k)]
        except Exception:
            return mk("field", t, k)
    if op == "closure" and isinstance(k, str):
        d = dict(t.a[1])
        if k in d:
            return d[k]
        return mk("field", t, k)
    if op == "ite":
        return ite(t.a[0], proj1(t.a[1], k), proj1(t.a[2], k))
    if op == "array" and not isinstance(k, str):
        ix = k[1]
        if ix.op == "num" and 0 <= ix.a[0] < len(t.a):
            return t.a[int(ix.a[0])]
    if isinstance(k, str):
        if op == "iternext" and k == "Some.0":
            return elem(t.a[0])
        return mk("field", t, k)
    return mk("index", t, k[1])


def proj(t, ks):
    for k in ks:
        t = proj1(t, k)
    return t


def update(t, ks, v):
    if not ks:
        return v
    k = ks[0]
    if t.op == "ite":
        return ite(t.a[0], update(t.a[1], ks, v), update(t.a[2], ks, v))
    return mkupd(t, {k: update(proj1(t, k), ks[1:], v)})


def adt(path, var, fields):
    return mk("adt", path, var, tuple(fields))


OPT = "std::option::Option"
RES = "std::result::Result"


def some(x):
    return adt(OPT, "Some", [("0", x)])


NONE = adt(OPT, "None", [])


def ok(x):
    return adt(RES, "Ok", [("0", x)])


def err(x):
    return adt(RES, "Err", [("0", x)])


TWO = {"None": "Some", "Some": None, "Err": "Ok", "Ok": None}


def is_variant(t, v, variants=None):
    """BDD: t is of variant v"""
    if t.op == "ite":
        return bite(t.a[0], is_variant(t.a[1], v, variants), is_variant(t.a[2], v, variants))
    if t.op == "adt":
        return 1 if t.a[1] == v else 0
    if t.op == "upd":
        return is_variant(t.a[0], v, variants)
    if t is UNDEF:
        return 0
    if v in ("Less", "Equal", "Greater") and t.op == "call" and t.a[0] == "std::cmp::Ord::cmp" and len(t.a) == 3 and (t.a[1].op == "num" or t.a[2].op == "num"):
        return cmp({"Less": "lt", "Equal": "eq", "Greater": "gt"}[v], t.a[1], t.a[2], "isize")
    if v in TWO and TWO[v]:
        return bnot(bvar(mk("is", t, TWO[v])))
    if variants and len(variants) == 2 and v not in TWO:
        c = max(variants)
        if c != v:
            return bnot(bvar(mk("is", t, c)))
    return bvar(mk("is", t, v))


# ---------------------------------------------------------------- sequences
def elem(i):
    """generic element of an iterable term"""
    if i.op == "seq":
        return i.a[1]
    if i.op == "ite":
        return ite(i.a[0], elem(i.a[1]), elem(i.a[2]))
    if i.op == "enumerate":
        return mk("tuple", mk("pos", i.a[0]), elem(i.a[0]))
    if i.op == "zip":
        return mk("tuple", elem(i.a[0]), elem(i.a[1]))
    if i.op == "adt" and i.a[0].endswith("ops::Range"):
        return mk("elem", i)
    return mk("elem", i)


def pos(i):
    return mk("pos", i)


# ---------------------------------------------------------------- arithmetic
def _todict(t):
    if t.op == "num":
        return {(): t.a[0]} if t.a[0] != 0 else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {(t,): Fraction(1)}


def _fromdict(d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (k, v), = d.items()
        if k == ():
            return const(v)
        if v == 1 and len(k) == 1:
            return k[0]
    return mk("poly", tuple(sorted(d.items(), key=lambda kv: [x.id for x in kv[0]])))


def _lift(f, a, b):
    if a.op == "ite" and nleaves(a) <= 8:
        return ite(a.a[0], _lift(f, a.a[1], b), _lift(f, a.a[2], b))
    if b.op == "ite" and nleaves(b) <= 8:
        return ite(b.a[0], _lift(f, a, b.a[1]), _lift(f, a, b.a[2]))
    if a is UNDEF or b is UNDEF:
        return UNDEF
    return f(a, b)


def add(a, b):
    def f(a, b):
        d = dict(_todict(a))
        for k, v in _todict(b).items():
            d[k] = d.get(k, 0) + v
        return _fromdict(d)
    return _lift(f, a, b)


def mul(a, b):
    def f(a, b):
        da, db = _todict(a), _todict(b)
        if len(da) * len(db) > 64:
            return mk("mulop", *sorted((a, b), key=lambda x: x.id))
        d = {}
        for k, v in da.items():
            for k2, v2 in db.items():
                kk = tuple(sorted(k + k2, key=lambda x: x.id))
                d[kk] = d.get(kk, 0) + v * v2
        return _fromdict(d)
    return _lift(f, a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    return add(a, neg(b))


def idiv(a, b):
    def f(a, b):
        if b.op == "num" and b.a[0] == 1:
            return a
        if a.op == "num" and b.op == "num" and b.a[0] != 0:
            return const(a.a[0] // b.a[0])
        return mk("idiv", a, b)
    return _lift(f, a, b)


def idivt(a, b):
    """signed integer division (rounds towards zero)"""
    def f(a, b):
        if b.op == "num" and b.a[0] == 1:
            return a
        if a.op == "num" and b.op == "num" and b.a[0] != 0:
            q = abs(a.a[0]) // abs(b.a[0])
            return const(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
        return mk("idivt", a, b)
    return _lift(f, a, b)


def fdiv(a, b):
    def f(a, b):
        if b.op == "num" and b.a[0] != 0:
            return mul(a, const(1 / b.a[0]))
        return mk("fdiv", a, b)
    return _lift(f, a, b)


def mod(a, b, kind="mod"):
    def f(a, b):
        if a.op == "num" and b.op == "num" and b.a[0] != 0 and a.a[0] >= 0:
            return const(a.a[0] % b.a[0])
        return mk(kind, a, b)
    return _lift(f, a, b)


def minmax(kind, a, b):
    def f(a, b):
        if a is b:
            return a
        if a.op == "num" and b.op == "num":
            return const(min(a.a[0], b.a[0]) if kind == "min" else max(a.a[0], b.a[0]))
        return mk(kind, *sorted((a, b), key=lambda x: x.id))
    return _lift(f, a, b)


def isint(ty):
    return ty.lstrip("&").replace("mut ", "") in ("usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "char")


def isuns(ty):
    return ty.lstrip("&").replace("mut ", "") in ("usize", "u8", "u16", "u32", "u64", "u128")


def _lt0(p):
    """BDD for integer polynomial p < 0"""
    if p.op == "num":
        return 1 if p.a[0] < 0 else 0
    if p.op == "ite":
        return bite(p.a[0], _lt0(p.a[1]), _lt0(p.a[2]))
    d = _todict(p)
    lead = sorted(((k, v) for k, v in d.items() if k != ()), key=lambda kv: [x.id for x in kv[0]])[0]
    if lead[1] < 0:
        q = sub(neg(p), const(1))     # p<0  <=>  not(-p-1 < 0)   (p integer)
        return bnot(bvar(mk("lt0", q)))
    return bvar(mk("lt0", p))


def _eq0(p, uns_atom=False):
    if p.op == "num":
        return 1 if p.a[0] == 0 else 0
    if p.op == "ite":
        return bite(p.a[0], _eq0(p.a[1]), _eq0(p.a[2]))
    d = _todict(p)
    lead = sorted(((k, v) for k, v in d.items() if k != ()), key=lambda kv: [x.id for x in kv[0]])[0]
    if lead[1] < 0:
        p = neg(p)
        d = _todict(p)
    return bvar(mk("eq0", p))


def cmp(op, a, b, ty=""):
    """BDD of a comparison"""
    if a.op == "ite" and nleaves(a) <= 12:
        return bite(a.a[0], cmp(op, a.a[1], b, ty), cmp(op, a.a[2], b, ty))
    if b.op == "ite" and nleaves(b) <= 12:
        return bite(b.a[0], cmp(op, a, b.a[1], ty), cmp(op, a, b.a[2], ty))
    if a is UNDEF or b is UNDEF:
        return 0
    if a.op == "bool" or b.op == "bool":
        x, y = asb(a), asb(b)
        e = bite(x, y, bnot(y))
        if op == "eq":
            return e
        if op == "ne":
            return bnot(e)
    if op == "ne":
        return bnot(cmp("eq", a, b, ty))
    if op == "gt":
        return cmp("lt", b, a, ty)
    if op == "ge":
        return cmp("le", b, a, ty)
    integer = isint(ty)
    if op == "eq":
        if a is b:
            return 1
        if a.op == "lit" and b.op == "lit":
            return 1 if a.a[0] == b.a[0] else 0
        if a.op == "adt" and b.op == "adt" and not a.a[2] and not b.a[2] and a.a[0] == b.a[0]:
            return 1 if a.a[1] == b.a[1] else 0
        for x, y in ((a, b), (b, a)):
            if x.op == "adt" and x.a[0] == OPT:
                if x.a[1] == "None":
                    return bnot(is_variant(y, "Some"))
                return band(is_variant(y, "Some"), cmp("eq", proj1(y, "Some.0"), dict(x.a[2])["0"], ""))
            if x.op == "adt" and not x.a[2]:
                return is_variant(y, x.a[1])
        if a.op == "tuple" and b.op == "tuple" and len(a.a) == len(b.a):
            r = 1
            for x, y in zip(a.a, b.a):
                r = band(r, cmp("eq", x, y, ""))
            return r
        if integer or a.op in ("num", "poly") or b.op in ("num", "poly"):
            if isuns(ty):
                # x == 0  <=>  x < 1 for an unsigned value
                if b.op == "num" and b.a[0] == 0 and a.op not in ("poly", "num"):
                    return _lt0(sub(a, const(1)))
                if a.op == "num" and a.a[0] == 0 and b.op not in ("poly", "num"):
                    return _lt0(sub(b, const(1)))
            return _eq0(sub(a, b))
        x, y = sorted((a, b), key=lambda t: t.id)
        return bvar(mk("eq", x, y))
    if integer:
        if op == "lt":
            # a bound on the smaller/larger of two values
            for x, j, other in ((a, "min", b), (b, "max", a)):
                if x.op in ("min", "max") and len(x.a) == 2 and other.op in ("field", "num"):
                    l, r = (cmp("lt", y, b, ty) if x is a else cmp("lt", a, y, ty) for y in x.a)
                    return bor(l, r) if x.op == j else band(l, r)
            # induction guard: element of a..b is < b
            if a.op == "elem" and a.a[0].op == "adt" and a.a[0].a[0].endswith("ops::Range") and dict(a.a[0].a[2]).get("end") is b:
                return bvar(mk("is", mk("iternext", a.a[0]), "Some"))
            if isuns(ty) and b.op == "num" and b.a[0] == 0:
                return 0
            return _lt0(sub(a, b))
        return bnot(cmp("lt", b, a, ty))
    if a is b:
        return 1 if op == "le" else 0
    if a.op == "num" and b.op == "num":
        return 1 if (a.a[0] < b.a[0] or (op == "le" and a.a[0] == b.a[0])) else 0
    return bvar(mk("f" + op, a, b))


# ---------------------------------------------------------------- traversal / printing
def subterms(t, seen=None):
    """all sub-terms (through BDD atoms as well)"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("bool", "ite") and isinstance(x.a[0], int):
                st += list(bsupport(x.a[0]))
            st += list(x.a)
        elif isinstance(x, tuple):
            st += list(x)
    return seen


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, memo=None):
    """rebuild t with sub-terms replaced (m: term->term)"""
    if memo is None:
        memo = {}

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in m:
            return m[x]
        if x in memo:
            return memo[x]
        if x.op == "bool":
            r = boolt(gob(x.a[0]))
        elif x.op == "ite":
            r = ite(gob(x.a[0]), go(x.a[1]), go(x.a[2]))
        elif x.op == "poly":
            r = const(0)
            for mono, co in x.a[0]:
                p = const(co)
                for y in mono:
                    p = mul(p, go(y))
                r = add(r, p)
        elif x.op == "field":
            r = proj1(go(x.a[0]), x.a[1])
        elif x.op == "index":
            r = proj1(go(x.a[0]), ("ix", go(x.a[1])))
        elif x.op == "upd":
            r = mkupd(go(x.a[0]), {(k if isinstance(k, str) else go(k)): go(v) for k, v in x.a[1]})
        elif x.op == "elem":
            r = elem(go(x.a[0]))
        elif x.op in ("min", "max"):
            r = minmax(x.op, go(x.a[0]), go(x.a[1]))
        elif x.op == "idiv":
            r = idiv(go(x.a[0]), go(x.a[1]))
        elif x.op == "idivt":
            r = idivt(go(x.a[0]), go(x.a[1]))
        elif x.op == "fdiv":
            r = fdiv(go(x.a[0]), go(x.a[1]))
        elif x.op == "mulop":
            r = mul(go(x.a[0]), go(x.a[1]))
        elif x.op == "lt0":
            r = boolt(_lt0(go(x.a[0])))
        elif x.op == "eq0":
            r = boolt(_eq0(go(x.a[0])))
        elif x.op == "is":
            r = boolt(is_variant(go(x.a[0]), x.a[1]))
        else:
            r = mk(x.op, *[go(y) for y in x.a])
        memo[x] = r
        return r

    def gob(n):
        return bcompose(n, {at: asb(go(at)) for at in bsupport(n)})

    return go(t)


def bsubst(n, m):
    return asb(subst(boolt(n), m))


def showb(n, limit=12):
    if n == 1:
        return "true"
    if n == 0:
        return "false"
    cs = bpaths(n, limit)
    return " | ".join(" & ".join(("" if v else "!") + show(a, 6) for a, v in c) for c in cs)


def show(t, d=14):
    if isinstance(t, tuple):
        return "(" + ",".join(show(x, d) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if d <= 0:
        return "…"
    o, a = t.op, t.a
    if o == "num":
        return str(a[0])
    if o in ("lit", "sym"):
        return repr(a[0]) if o == "lit" else str(a[0])
    if o == "field":
        return show(a[0], d - 1) + "." + a[1]
    if o == "index":
        return "%s[%s]" % (show(a[0], d - 1), show(a[1], d - 1))
    if o == "poly":
        return "(" + " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [show(x, d - 1) for x in m]) for m, c in a[0]) + ")"
    if o == "adt":
        return a[0].split("::")[-1] + ("" if a[1] == a[0].split("::")[-1] else "::" + a[1]) + "{" + ", ".join(k + ":" + show(v, d - 1) for k, v in a[2]) + "}"
    if o == "tuple":
        return "(" + ", ".join(show(x, d - 1) for x in a) + ")"
    if o == "bool":
        return "<" + showb(a[0]) + ">"
    if o == "ite":
        return "ite(" + showb(a[0], 6) + " ? " + show(a[1], d - 1) + " : " + show(a[2], d - 1) + ")"
    if o == "upd":
        return show(a[0], d - 1) + "{" + ", ".join(_ks(k) + ":=" + show(v, d - 1) for k, v in a[1]) + "}"
    if o == "call":
        return a[0].split("::")[-1] + "(" + ", ".join(show(x, d - 1) for x in a[1:]) + ")"
    if o == "mut":
        return "mut:" + a[0].split("::")[-1] + "(" + ", ".join(show(x, d - 1) for x in a[1:]) + ")"
    if o == "ref":
        return "&" + show(a[0], d - 1) + "".join("." + (x if isinstance(x, str) else "[" + show(x[1], d - 1) + "]") for x in a[1])
    if o == "closure":
        return "closure<" + a[0].split("::")[-2] + ">"
    if o == "is":
        return "%s is %s" % (show(a[0], d - 1), a[1])
    if o == "lt0":
        return "%s<0" % show(a[0], d - 1)
    if o == "eq0":
        return "%s==0" % show(a[0], d - 1)
    return o + "(" + ", ".join(show(x, d - 1) for x in a) + ")"
