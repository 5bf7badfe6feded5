"""Models of library functions used by the dataflow engine."""
import re
from terms import *

BUILTIN = {}
BUILTIN_NAME = {}


def bi(*names):
    def d(fn):
        for n in names:
            BUILTIN[n] = fn
        return fn
    return d


def bn(*names):
    def d(fn):
        for n in names:
            BUILTIN_NAME[n] = fn
        return fn
    return d


def O(n):
    return "std::option::Option::" + n


def R(n):
    return "std::result::Result::" + n


def I(n):
    return "std::iter::Iterator::" + n


def payload(v, var):
    return proj1(v, var + ".0")


# ---------------------------------------------------------------- arithmetic & comparison traits
def _arith(fn):
    def g(E, fr, a, ty, cond, f, site, t, st):
        return fn(E.val(st, a[0]), E.val(st, a[1]), base_num(ty[0])), st, cond
    return g


def base_num(ty):
    return re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)


def _num(ty):
    return base_num(ty) in ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "i128", "u128")


def _guard(fn):
    def g(E, fr, a, ty, cond, f, site, t, st):
        if not (_num(ty[0]) or ty[0].startswith("num") or len(base_num(ty[0])) <= 1):
            # arrays etc: still value-number symbolically with the arithmetic op
            pass
        return fn(E, fr, a, ty, cond, f, site, t, st)
    return g


for n, op in (("Add::add", add), ("Sub::sub", sub), ("Mul::mul", mul)):
    BUILTIN["std::ops::" + n] = _arith(lambda x, y, ty, op=op: op(x, y))


@bi("std::ops::Div::div")
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = E.val(st, a[0]), E.val(st, a[1])
    b = base_num(ty[0])
    return (idiv(x, y) if isuns(b) else idivt(x, y) if isint(b) else fdiv(x, y)), st, cond


@bi("std::ops::Rem::rem")
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = E.val(st, a[0]), E.val(st, a[1])
    return mod(x, y, "mod" if isuns(base_num(ty[0])) else "rem"), st, cond


for n, op in (("AddAssign::add_assign", add), ("SubAssign::sub_assign", sub), ("MulAssign::mul_assign", mul), ("DivAssign::div_assign", fdiv)):
    def _mk(op):
        def g(E, fr, a, ty, cond, f, site, t, st):
            y = E.val(st, a[1])
            tg = E.deref_targets(a[0])
            for c, r, k in tg:
                old = E.val(st, E.read(st, r, k))
                nv = op(old, y)
                E.write(st, r, k, nv if len(tg) == 1 else ite(c, nv, old))
            E.event("assign_op", fr.cname, a, cond, f, t.get("sp"), st, fr.name, raw=a)
            return UNIT, st, cond
        return g
    BUILTIN["std::ops::" + n] = _mk(op)


@bi("std::ops::Neg::neg")
def _(E, fr, a, ty, cond, f, site, t, st):
    return neg(E.val(st, a[0])), st, cond


@bi("std::ops::Not::not")
def _(E, fr, a, ty, cond, f, site, t, st):
    return boolt(bnot(asb(E.val(st, a[0])))), st, cond


@bi("std::ops::BitAnd::bitand", "std::ops::BitOr::bitor")
def _(E, fr, a, ty, cond, f, site, t, st):
    if base_num(ty[0]) == "bool":
        x, y = asb(E.val(st, a[0])), asb(E.val(st, a[1]))
        return boolt(band(x, y) if fr.name == "bitand" else bor(x, y)), st, cond
    return NotImplemented


def _cmp(op):
    def g(E, fr, a, ty, cond, f, site, t, st):
        if fr.local:
            return NotImplemented
        return boolt(cmp(op, E.val(st, a[0]), E.val(st, a[1]), base_num(ty[0]))), st, cond
    return g


for n in ("eq", "ne"):
    BUILTIN["std::cmp::PartialEq::" + n] = _cmp(n)
for n in ("lt", "le", "gt", "ge"):
    BUILTIN["std::cmp::PartialOrd::" + n] = _cmp(n)


@bi("std::cmp::Ord::min", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::max")
def _(E, fr, a, ty, cond, f, site, t, st):
    return minmax(fr.name, E.val(st, a[0]), E.val(st, a[1])), st, cond


@bn("max", "min")
def _(E, fr, a, ty, cond, f, site, t, st):
    if len(a) == 2 and base_num(ty[0]) in ("f32", "f64") or (len(a) == 2 and _num(ty[0])):
        return minmax(fr.name, E.val(st, a[0]), E.val(st, a[1])), st, cond
    return NotImplemented


@bi("num_integer::Integer::div_floor", "num_integer::div_floor")
def _(E, fr, a, ty, cond, f, site, t, st):
    return idiv(E.val(st, a[0]), E.val(st, a[1])), st, cond


@bi("num_integer::Integer::mod_floor", "num_integer::mod_floor")
def _(E, fr, a, ty, cond, f, site, t, st):
    return mod(E.val(st, a[0]), E.val(st, a[1]), "mod" if isuns(base_num(ty[0])) else "modf"), st, cond


@bi("std::collections::HashMap::is_empty")
def _(E, fr, a, ty, cond, f, site, t, st):
    n = mk("call", "std::collections::HashMap::len", E.val(st, a[0]))
    return boolt(cmp("eq", n, const(0), "usize")), st, cond


@bi("std::collections::HashMap::values_mut")
def _(E, fr, a, ty, cond, f, site, t, st):
    m = E.val(st, a[0])
    return seq(m, proj(elem(m), ("1",)), 1), st, cond


@bi("std::ops::RangeInclusive::new")
def _(E, fr, a, ty, cond, f, site, t, st):
    lo, hi = E.val(st, a[0]), E.val(st, a[1])
    if isint(base_num(ty[1])):
        return adt("std::ops::Range", "Range", [("start", lo), ("end", add(hi, const(1)))]), st, cond
    return adt("std::ops::RangeInclusive", "RangeInclusive", [("start", lo), ("end", hi)]), st, cond


@bi("std::ops::Range::contains", "std::ops::RangeInclusive::contains")
def _(E, fr, a, ty, cond, f, site, t, st):
    r, x = E.val(st, a[0]), E.val(st, a[1])
    if r.op != "adt":
        return mk("call", "std::ops::Range::contains", r, x), st, cond
    d = dict(r.a[2])
    n = base_num(ty[1])
    return boolt(band(cmp("le", d["start"], x, n), cmp("lt" if r.a[0].endswith("Range") else "le", x, d["end"], n))), st, cond


@bn("ncols", "nrows")
def _(E, fr, a, ty, cond, f, site, t, st):
    if "ndarray" not in fr.cname:
        return NotImplemented
    r = E.opaque_call(fr.cname[:-5] + "shape", "shape", fr.args, fr.self_ty, a, ty, cond, f, t, st, site=site)
    return proj(E.val(st, r), (("ix", const(1 if fr.name == "ncols" else 0)),)), st, cond


@bn("rem_euclid")
def _(E, fr, a, ty, cond, f, site, t, st):
    return mod(E.val(st, a[0]), E.val(st, a[1]), "mod" if isuns(base_num(ty[0])) else "modf"), st, cond


@bn("div_euclid")
def _(E, fr, a, ty, cond, f, site, t, st):
    return idiv(E.val(st, a[0]), E.val(st, a[1])), st, cond


@bi("num_integer::Integer::div_ceil", "num_integer::div_ceil")
def _ceil(E, fr, a, ty, cond, f, site, t, st):
    return mk("divceil", E.val(st, a[0]), E.val(st, a[1])), st, cond


@bn("div_ceil")
def _(E, fr, a, ty, cond, f, site, t, st):
    return mk("divceil", E.val(st, a[0]), E.val(st, a[1])), st, cond


@bn("wrapping_add", "wrapping_sub", "wrapping_mul")
def _(E, fr, a, ty, cond, f, site, t, st):
    op = {"wrapping_add": add, "wrapping_sub": sub, "wrapping_mul": mul}[fr.name]
    return op(E.val(st, a[0]), E.val(st, a[1])), st, cond


@bn("checked_sub", "checked_add")
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = E.val(st, a[0]), E.val(st, a[1])
    n = base_num(ty[0])
    if not isuns(n):
        return NotImplemented
    if fr.name == "checked_add":
        return some(add(x, y)), st, cond
    return ite(cmp("lt", x, y, n), NONE, some(sub(x, y))), st, cond


@bn("pow", "powi")
def _(E, fr, a, ty, cond, f, site, t, st):
    x, n = E.val(st, a[0]), E.val(st, a[1])
    if n.op == "num" and n.a[0].denominator == 1 and 0 <= n.a[0] <= 4:
        r = const(1)
        for _ in range(int(n.a[0])):
            r = mul(r, x)
        return r, st, cond
    return NotImplemented


# ---------------------------------------------------------------- conversions
@bi("std::convert::From::from", "std::convert::Into::into", "std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    if fr.name.startswith("try"):
        return NotImplemented
    dty = t.get("dty", "")
    if fr.name == "into" and not fr.local:
        # find a local From impl for the destination type
        d = E.ty(f, dty)
        for b in E.p.bodies.values():
            if b.get("trait") == "std::convert::From" and b.get("name") == "from" and "promoted[" not in b["key"]:
                ta = b["trait_args"]
                if ta[0] == d and ta[1] == ty[0] and f.stack.count(b["key"]) == 0:
                    return E.call_body(b, a, st, cond, f, site, dict(zip(b.get("generics", []), b.get("generics", []))))
    if fr.local:
        return NotImplemented
    if "anyhow" in dty or "Error" in dty:
        return mk("call", "into_error", E.val(st, v)), st, cond
    return v, st, cond


@bi("std::str::FromStr::from_str")
def _(E, fr, a, ty, cond, f, site, t, st):
    return NotImplemented


# ---------------------------------------------------------------- Option / Result
def is_opt(ty):
    return "option::Option<" in ty


@bi(O("is_some"), O("is_none"), R("is_ok"), R("is_err"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = E.val_shallow(st, a[0])
    var = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}[fr.name]
    return boolt(is_variant(v, var)), st, cond


def good(fr):
    return "Some" if "option" in fr.cname else "Ok"


def bad(fr):
    return "None" if "option" in fr.cname else "Err"


@bi(O("unwrap"), O("expect"), R("unwrap"), R("expect"), O("unwrap_unchecked"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    g = good(fr)
    c = is_variant(v, g)
    E.event("unwrap", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args, extra=c)
    if c == 0:
        return UNDEF, None, 0
    # the failing side diverges, so only the payload of the good side survives
    return payload(v, g), st, cond


@bi(R("unwrap_err"), R("expect_err"))
def _(E, fr, a, ty, cond, f, site, t, st):
    return payload(a[0], "Err"), st, cond


def reft(E, st, ref, var):
    """reference to the payload behind a reference to an Option/Result"""
    out = None
    for c, r, k in reversed(E.deref_targets(ref)):
        x = mk("ref", r, k + (var + ".0",))
        out = x if out is None else ite(c, x, out)
    return out


@bi(O("as_ref"), O("as_mut"), O("as_deref"), O("as_deref_mut"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = E.val_shallow(st, a[0])
    c = is_variant(v, "Some")
    return ite(c, some(reft(E, st, a[0], "Some")), NONE), st, cond


@bi(R("as_ref"), R("as_mut"), R("as_deref"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = E.val_shallow(st, a[0])
    c = is_variant(v, "Ok")
    return ite(c, ok(reft(E, st, a[0], "Ok")), err(reft(E, st, a[0], "Err"))), st, cond


@bi(O("cloned"), O("copied"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    c = is_variant(v, "Some")
    if v.op in ("adt", "ite"):
        return ite(c, some(E.val(st, payload(v, "Some"))), NONE), st, cond
    return v, st, cond


@bi(O("take"), "std::mem::take", O("replace"), O("insert"), "std::mem::replace")
def _(E, fr, a, ty, cond, f, site, t, st):
    old = E.val_shallow(st, a[0])
    if fr.name == "take" and fr.cname.startswith("std::option"):
        nv = NONE
    elif fr.name == "take":
        nv = default_of(E, fr.args[0] if fr.args else "", cond, f, site, st)
    elif fr.cname == "std::mem::replace":
        nv = a[1]
    else:
        nv = some(a[1])
    E.write_targets(st, E.deref_targets(a[0]), nv)
    E.event("call", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args)
    if fr.name == "insert":
        return reft(E, st, a[0], "Some"), st, cond
    return old, st, cond


@bi(O("get_or_insert_with"), O("get_or_insert"), O("get_or_insert_default"))
def _(E, fr, a, ty, cond, f, site, t, st):
    old = E.val_shallow(st, a[0])
    c = is_variant(old, "Some")
    if fr.name == "get_or_insert_with":
        v, st, cond = branch2(E, c, cond, st, lambda s, cc: (payload(old, "Some"), s, cc), lambda s, cc: E.call_closure(a[1], [], s, cc, f, site + ("goi",), t))
    elif fr.name == "get_or_insert":
        v = ite(c, payload(old, "Some"), a[1])
    else:
        v = ite(c, payload(old, "Some"), default_of(E, fr.args[0] if fr.args else "", band(cond, bnot(c)), f, site, st))
    E.write_targets(st, E.deref_targets(a[0]), ite(c, old, some(v)))
    return reft(E, st, a[0], "Some"), st, cond


@bi("std::vec::Vec::retain")
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    if any(x.op == "loopvar" for x in subterms(i)):
        return NotImplemented
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i))
    v = mk("collect", seq(i, elem(i), asb(E.val(st, r))), mk("ty", "std::vec::Vec"))
    for c, rt, k in E.deref_targets(a[0]):
        old = E.read(st, rt, k)
        E.write(st, rt, k, v if c == 1 else ite(c, v, old))
    E.event("call", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args)
    return UNIT, st, cond


@bi("std::mem::swap")
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = E.val_shallow(st, a[0]), E.val_shallow(st, a[1])
    E.write_targets(st, E.deref_targets(a[0]), y)
    E.write_targets(st, E.deref_targets(a[1]), x)
    return UNIT, st, cond


def branch2(E, c, cond, st, ft, fe):
    """evaluate ft/fe under c / !c ; each: (state, cond)->(val,state,cond)"""
    outs = []
    r1 = r2 = UNDEF
    if band(cond, c) != 0:
        r1, s1, c1 = ft(dict(st), band(cond, c))
        if s1 is not None:
            outs.append((c1, s1))
    if band(cond, bnot(c)) != 0:
        r2, s2, c2 = fe(dict(st), band(cond, bnot(c)))
        if s2 is not None:
            outs.append((c2, s2))
    outs = [(x, y) for x, y in outs if x != 0]
    if not outs:
        return UNDEF, None, 0
    cc, ss = E.merge(outs)
    return ite(c, r1, r2), ss, cc


@bi(O("map"), R("map"), O("and_then"), R("and_then"), R("map_err"), O("or_else"), R("or_else"), O("filter"), O("is_some_and"), R("is_ok_and"), O("inspect"), O("is_none_or"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    g, b = good(fr), bad(fr)
    c = is_variant(v, g)
    n = fr.name
    p = payload(v, g)
    call = lambda s, cc, x: E.call_closure(a[1], x, s, cc, f, site + (n,), t)

    def wrap(r, w):
        return (w(r[0]), r[1], r[2])
    mkgood = some if g == "Some" else ok
    badv = NONE if g == "Some" else err(payload(v, "Err"))
    if n == "map":
        return branch2(E, c, cond, st, lambda s, cc: wrap(call(s, cc, [p]), mkgood), lambda s, cc: (badv, s, cc))
    if n == "and_then":
        return branch2(E, c, cond, st, lambda s, cc: call(s, cc, [p]), lambda s, cc: (badv, s, cc))
    if n in ("is_some_and", "is_ok_and"):
        return branch2(E, c, cond, st, lambda s, cc: call(s, cc, [p]), lambda s, cc: (FALSE, s, cc))
    if n == "is_none_or":
        return branch2(E, c, cond, st, lambda s, cc: call(s, cc, [p]), lambda s, cc: (TRUE, s, cc))
    if n == "map_err":
        return branch2(E, c, cond, st, lambda s, cc: (ok(p), s, cc), lambda s, cc: wrap(call(s, cc, [payload(v, "Err")]), err))
    if n == "or_else":
        return branch2(E, c, cond, st, lambda s, cc: (mkgood(p), s, cc), lambda s, cc: call(s, cc, [] if g == "Some" else [payload(v, "Err")]))
    if n == "filter":
        def ft(s, cc):
            r, s2, c2 = call(s, cc, [p])
            return ite(asb(r), v, NONE), s2, c2
        return branch2(E, c, cond, st, ft, lambda s, cc: (NONE, s, cc))
    if n == "inspect":
        def ft(s, cc):
            r, s2, c2 = call(s, cc, [p])
            return v, s2, c2
        return branch2(E, c, cond, st, ft, lambda s, cc: (v, s, cc))
    return NotImplemented


@bi(O("unwrap_or_else"), R("unwrap_or_else"), O("unwrap_or"), R("unwrap_or"), O("map_or"), R("map_or"), O("map_or_else"), R("map_or_else"), O("unwrap_or_default"), R("unwrap_or_default"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    g = good(fr)
    c = is_variant(v, g)
    p = payload(v, g)
    n = fr.name
    e_args = [] if g == "Some" else [payload(v, "Err")]
    call = lambda fn, s, cc, x, k: E.call_closure(fn, x, s, cc, f, site + (n, k), t)
    if n == "unwrap_or":
        E.event("call", fr.cname, a, cond, f, t.get("sp"), st, n, fr.args)
        return ite(c, p, a[1]), st, cond
    if n == "unwrap_or_default":
        E.event("call", fr.cname, a, cond, f, t.get("sp"), st, n, fr.args)
        return ite(c, p, default_of(E, fr.args[0] if fr.args else "", band(cond, bnot(c)), f, site, st)), st, cond
    if n == "unwrap_or_else":
        E.event("call", fr.cname, a, cond, f, t.get("sp"), st, n, fr.args)
        return branch2(E, c, cond, st, lambda s, cc: (p, s, cc), lambda s, cc: call(a[1], s, cc, e_args, "e"))
    if n == "map_or":
        return branch2(E, c, cond, st, lambda s, cc: call(a[2], s, cc, [p], "t"), lambda s, cc: (a[1], s, cc))
    if n == "map_or_else":
        return branch2(E, c, cond, st, lambda s, cc: call(a[2], s, cc, [p], "t"), lambda s, cc: call(a[1], s, cc, e_args, "e"))
    return NotImplemented


@bi(O("or"), O("and"), O("xor"))
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = a[0], a[1]
    c, d = is_variant(x, "Some"), is_variant(y, "Some")
    if fr.name == "or":
        return ite(c, x, y), st, cond
    if fr.name == "and":
        return ite(c, y, NONE), st, cond
    return ite(band(c, bnot(d)), x, ite(band(d, bnot(c)), y, NONE)), st, cond


@bi("core::cmp::Ordering::then_with", "std::cmp::Ordering::then_with")
def _(E, fr, a, ty, cond, f, site, t, st):
    r, st2, c2 = E.call_closure(a[1], [], st, cond, f, site + ("then",), t)
    return mk("call", "core::cmp::Ordering::then", a[0], E.val(st2, r) if isinstance(r, T) else r), st2, c2


@bi(O("ok_or"), O("ok_or_else"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    c = is_variant(v, "Some")
    if fr.name == "ok_or":
        return ite(c, ok(payload(v, "Some")), err(a[1])), st, cond

    def fe(s, cc):
        r, s2, c2 = E.call_closure(a[1], [], s, cc, f, site + ("e",), t)
        return err(r), s2, c2
    return branch2(E, c, cond, st, lambda s, cc: (ok(payload(v, "Some")), s, cc), fe)


@bi(R("ok"), R("err"))
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    E.event("call", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args)
    c = is_variant(v, "Ok")
    if fr.name == "ok":
        return ite(c, some(payload(v, "Ok")), NONE), st, cond
    return ite(c, NONE, some(payload(v, "Err"))), st, cond


CF = "std::ops::ControlFlow"


@bi("std::ops::Try::branch")
def _(E, fr, a, ty, cond, f, site, t, st):
    v = a[0]
    o = is_opt(ty[0]) and not ty[0].startswith("std::result")
    g = "Some" if o else "Ok"
    c = is_variant(v, g)
    br = NONE if o else err(payload(v, "Err"))
    return ite(c, adt(CF, "Continue", [("0", payload(v, g))]), adt(CF, "Break", [("0", br)])), st, cond


@bi("std::ops::FromResidual::from_residual")
def _(E, fr, a, ty, cond, f, site, t, st):
    return a[0], st, cond


@bi("std::ops::Try::from_output")
def _(E, fr, a, ty, cond, f, site, t, st):
    return (some(a[0]) if is_opt(t.get("dty", "")) else ok(a[0])), st, cond


# ---------------------------------------------------------------- memory-ish
@bi("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(E, fr, a, ty, cond, f, site, t, st):
    ix = E.val(st, a[1])
    E.event("index", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args, fr.self_ty)
    out = None
    for c, r, k in reversed(E.deref_targets(a[0])):
        for _ in range(3):
            # a view is a reference to what it shows
            v = proj(st[r], k) if r in st else None
            if v is None or v.op != "ref":
                break
            r, k = v.a[0], v.a[1]
        x = mk("ref", r, k + (("ix", ix),))
        out = x if out is None else ite(c, x, out)
    return out, st, cond


@bi("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write")
def _(E, fr, a, ty, cond, f, site, t, st):
    E.event("lock", fr.cname, a, cond, f, t.get("sp"), st, fr.name, fr.args)
    return ok(a[0]), st, cond


@bi("std::boxed::Box::new_uninit")
def _(E, fr, a, ty, cond, f, site, t, st):
    return mk("boxnew", f.id, site[0]), st, cond


@bi("std::boxed::box_assume_init_into_vec_unsafe")
def _(E, fr, a, ty, cond, f, site, t, st):
    v = E.val(st, a[0])
    # `vec![..]`: the array was stored through the raw box
    for r, x in st.items():
        if r[0] == "O" and contains(r[1], lambda y: y is a[0]) and (x.op in ("array", "upd")):
            arr = [y for y in subterms(x) if y.op == "array"]
            if len(arr) == 1:
                return mk("array", *[E.val(st, y) for y in arr[0].a]), st, cond
    return mk("vec", v), st, cond


def default_of(E, s, cond, f, site, st):
    """the default value of type s"""
    d = {"usize": const(0), "isize": const(0), "f32": const(0), "f64": const(0), "bool": FALSE, "u64": const(0), "i32": const(0)}.get(s)
    if d is not None:
        return d
    if s.startswith("std::option::Option<"):
        return NONE
    b = E.p.tmethod(s, "default", "std::default::Default") if s else None
    if b is not None and not b.get("trait_default") and not b.get("generics") and not E.opaque(b) and f.stack.count(b["key"]) < 1:
        r, st2, _ = E.call_body(b, [], st, cond, f, site + ("default",), {})
        if st2 is not None:
            return r
    return mk("call", "default", mk("ty", s))


@bi("std::default::Default::default")
def _(E, fr, a, ty, cond, f, site, t, st):
    if fr.local:
        return NotImplemented
    return default_of(E, fr.self_ty, cond, f, site, st), st, cond


# ---------------------------------------------------------------- iterators
def itv(E, st, v):
    """iterator value of an argument"""
    return E.val(st, v)


def body1(E, a, fi, params, cond, f, site, t, st, src):
    """run closure argument `fi` as a loop body over src with params; returns its value"""
    return E.in_loop(src, lambda s: E.call_closure(a[fi], params, s, cond, f, site + ("it",), t), st, lid=mk("loop", f.id, site, src))


def src_of(i):
    return i.a[0] if i.op == "seq" else i


def seq(src, el, c=1):
    if src.op == "seq":
        c = band(c, asb(src.a[2]))
        src = src.a[0]
    return mk("seq", src, el, boolt(c))


@bi(I("map"), I("inspect"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i))
    if fr.name == "inspect":
        return i, st, cond
    return seq(i, E.val(st, r)), st, cond


@bn("mapv", "mapv_into", "mapv_inplace", "map_inplace")
def _(E, fr, a, ty, cond, f, site, t, st):
    """element-wise transformation of an ndarray"""
    if "ndarray" not in fr.cname:
        return NotImplemented
    i = itv(E, st, a[0])
    if fr.name == "map_inplace":
        return NotImplemented
    r = body1(E, a, 1, [elem(i)], cond, f, site, t, st, i)
    v = mk("collect", seq(i, E.val(st, r)), mk("ty", "ndarray::ArrayBase"))
    if fr.name.endswith("inplace"):
        E.event("elementwise", fr.cname, [i, v], cond, f, t.get("sp"), st, fr.name)
        for c, rt, k in E.deref_targets(a[0]):
            old = E.read(st, rt, k)
            E.write(st, rt, k, v if c == 1 else ite(c, v, old))
        return UNIT, st, cond
    return v, st, cond


@bn("map_axis")
def _(E, fr, a, ty, cond, f, site, t, st):
    """one value per lane of a matrix: the lanes along one axis are the slices across the other"""
    if "ndarray" not in fr.cname or not re.search(r"\[usize; 2\]", ty[0]):
        return NotImplemented
    ax = E.val(st, a[1])
    k = proj(ax, ("0",))
    i = mk("call", "ndarray::ArrayBase::axis_iter", itv(E, st, a[0]), adt("ndarray::Axis", "Axis", [("0", sub(const(1), k))]))
    r = body1(E, a, 2, [elem(i)], cond, f, site, t, st, i)
    return mk("collect", seq(i, E.val(st, r)), mk("ty", "ndarray::ArrayBase")), st, cond


@bi(I("filter"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i))
    return seq(i, elem(i), asb(E.val(st, r))), st, cond


@bn("partition_point")
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    r = body1(E, a, 1, [elem(i)], cond, f, site, t, st, src_of(i))
    return mk("call", fr.cname, seq(i, elem(i), asb(E.val(st, r)))), st, cond


@bi(I("filter_map"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = E.val(st, body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i)))
    return seq(i, payload(r, "Some"), is_variant(r, "Some")), st, cond


@bi(I("flat_map"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = E.val(st, body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i)))
    return mk("flat", seq(i, r)), st, cond


@bi(I("for_each"), I("try_for_each"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    x = elem(i)
    sty = fr.self_ty or (fr.args[0] if fr.args else "")
    if "IterMut" in sty and "hash" not in sty and "btree" not in sty and i.op not in ("seq", "enumerate", "zip", "ite"):
        place = E.last_ref(st, a[0]) or (a[0] if a[0].op == "ref" else None)
        if place is not None:
            x = mk("ref", place.a[0], tuple(place.a[1]) + (("ix", pos(i)),))
    r = body1(E, a, 1, [x], band(cond, fc), f, site, t, st, src_of(i))
    if fr.name == "try_for_each":
        return mk("call", fr.cname, i, E.val(st, r)), st, cond
    return UNIT, st, cond


@bi(I("any"), I("all"), I("find"), I("position"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = asb(E.val(st, body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i))))
    s = src_of(i)
    if fr.name == "any":
        return boolt(bvar(mk("exists", s, boolt(band(fc, r))))), st, cond
    if fr.name == "all":
        return boolt(bnot(bvar(mk("exists", s, boolt(band(fc, bnot(r))))))), st, cond
    if fr.name == "find":
        return mk("call", "first", seq(i, elem(i), r)), st, cond
    return mk("call", fr.cname, i, boolt(r)), st, cond


@bi(I("find_map"))
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    r = E.val(st, body1(E, a, 1, [elem(i)], band(cond, fc), f, site, t, st, src_of(i)))
    return mk("call", "first", seq(i, payload(r, "Some"), is_variant(r, "Some"))), st, cond


@bi("core::bool::then", "bool::then", "core::bool::then_some", "bool::then_some")
def _(E, fr, a, ty, cond, f, site, t, st):
    c = asb(E.val(st, a[0]))
    if fr.name == "then_some":
        return ite(c, some(a[1]), NONE), st, cond

    def ft(s, cc):
        r, s2, c2 = E.call_closure(a[1], [], s, cc, f, site + ("then",), t)
        return some(E.val(s2, r)), s2, c2
    return branch2(E, c, cond, st, ft, lambda s, cc: (NONE, s, cc))


@bn("fold")
def _(E, fr, a, ty, cond, f, site, t, st):
    """over the elements of an array"""
    if "ndarray" not in fr.cname or len(a) != 3 or not re.search(r"\[usize; 1\]", ty[0] if ty else ""):
        return NotImplemented
    return fold_(E, fr, a, ty, cond, f, site, t, st)


@bi(I("fold"))
def fold_(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    fc = asb(i.a[2]) if i.op == "seq" else 1
    s = src_of(i)
    acc = mk("acc", s, E.val(st, a[1]))
    r = E.in_loop(s, lambda s_: E.call_closure(a[2], [acc, elem(i)], s_, band(cond, fc), f, site + ("it",), t), st, lid=mk("loop", f.id, site, s))
    r, init = E.val(st, r), E.val(st, a[1])
    d = r
    if init.op == "num" and r.op == "poly":
        d = sub(r, acc)
        if not contains(d, lambda x: x is acc):
            return add(init, mk("call", "sum", seq(i, d, 1))), st, cond
    return mk("fold", s, init, r if fc == 1 else ite(fc, r, acc), acc), st, cond


@bi(I("enumerate"))
def _(E, fr, a, ty, cond, f, site, t, st):
    return mk("enumerate", itv(E, st, a[0])), st, cond


@bi(I("zip"))
def _(E, fr, a, ty, cond, f, site, t, st):
    x, y = itv(E, st, a[0]), itv(E, st, a[1])
    for o, (u, v) in enumerate(((x, y), (y, x))):
        # counting along: zip with an open range
        if u.op == "adt" and u.a[0].endswith("ops::RangeFrom") and not (v.op == "adt" and v.a[0].endswith("ops::RangeFrom")) and v.op not in ("seq", "ite"):
            n, e = add(dict(u.a[2])["start"], mk("pos", v)), elem(v)
            return seq(mk("enumerate", v), mk("tuple", n, e) if o == 0 else mk("tuple", e, n), 1), st, cond
    return mk("zip", x, y), st, cond


@bi(I("collect"), "std::iter::FromIterator::from_iter")
def _(E, fr, a, ty, cond, f, site, t, st):
    i = itv(E, st, a[0])
    if i.op == "seq":
        return mk("collect", i, mk("ty", base_ty(t.get("dty", "")))), st, cond
    return mk("collect", i, mk("ty", base_ty(t.get("dty", "")))), st, cond


def base_ty(s):
    return s.split("<")[0]


@bi("std::future::Future::poll")
def _(E, fr, a, ty, cond, f, site, t, st):
    v = E.val(st, a[0])
    if v.op == "closure" and v.a[0] in E.p.bodies and f.stack.count(v.a[0]) == 0:
        body = E.p.bodies[v.a[0]]
        fk = E.frames.setdefault(("env", f.id, site, v.a[0]), len(E.frames))
        root = ("L", fk, 1)
        st[root] = v
        a0 = mk("ref", root, ()) if body["locals"][1][0].startswith("&") or "Pin<" in body["locals"][1][0] else v
        r, st, cond = E.call_body(body, [a0, sym("resume")], st, cond, f, site + ("await",), f.subst)
        if st is None:
            return UNDEF, None, 0
        return adt("std::task::Poll", "Ready", [("0", r)]), st, cond
    E.event("await", fr.cname, a, cond, f, t.get("sp"), st, "await")
    return adt("std::task::Poll", "Ready", [("0", mk("call", "await", v))]), st, cond


# ---------------------------------------------------------------- map entry API
def _entry_parts(e):
    """(map term, key) of an Entry value"""
    x = e
    while x.op == "call" and x.a[0].split("::")[-1] in ("and_modify",):
        x = x.a[1]
    if x.op == "call" and x.a[0].split("::")[-1] == "entry" and len(x.a) == 3:
        return x.a[1], x.a[2]
    return None


@bn("and_modify")
def _(E, fr, a, ty, cond, f, site, t, st):
    ent = E.val(st, a[0])
    mk_ = _entry_parts(ent)
    if mk_ is None:
        return NotImplemented
    g = mk("call", "std::collections::HashMap::get_mut", mk_[0], mk_[1])
    c = is_variant(g, "Some")
    p = mk("ref", ("O", proj1(g, "Some.0")), ())

    def ft(s, cc):
        r, s2, c2 = E.call_closure(a[1], [p], s, cc, f, site + ("am",), t)
        return ent, s2, c2
    return branch2(E, c, cond, st, ft, lambda s, cc: (ent, s, cc))


@bn("or_insert_with", "or_insert_with_key")
def _(E, fr, a, ty, cond, f, site, t, st):
    ent = E.val(st, a[0])
    mk_ = _entry_parts(ent)
    if mk_ is None or fr.name != "or_insert_with":
        return NotImplemented
    r, s2, c2 = E.call_closure(a[1], [], st, cond, f, site + ("oi",), t)
    if s2 is None:
        return r, s2, c2
    v = E.val(s2, r)
    E.event("call", "std::collections::hash_map::Entry::or_insert", [ent, v], c2, f, t.get("sp"), s2, "or_insert")
    return mk("call", "std::collections::hash_map::Entry::or_insert", ent, v), s2, c2
