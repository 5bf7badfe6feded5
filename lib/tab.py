"""Equality of small arithmetic functions extracted from the source: canonical form first; where two
canonical forms differ, the two extracted expressions are folded to constants over a finite grid."""
import math
from fractions import Fraction
from q import *


def _fold(t, memo=None):
    """constant-fold what subst left behind (modulo with negative operands, abs, casts)"""
    for _ in range(12):
        m = {}
        for x in subterms(t):
            if x.op in ("mod", "modf", "idivf") and len(x.a) == 2 and x.a[0].op == "num" and x.a[1].op == "num" and x.a[1].a[0] != 0:
                a, b = x.a[0].a[0], x.a[1].a[0]
                if x.op == "modf":
                    m[x] = const(a % b)
                elif x.op == "mod":
                    r = abs(a) % abs(b)
                    m[x] = const(-r if a < 0 else r)
            elif x.op == "divceil" and x.a[0].op == "num" and x.a[1].op == "num":
                m[x] = const(-(-x.a[0].a[0] // x.a[1].a[0]))
            elif x.op == "call" and len(x.a) >= 2 and all(isinstance(y, T) and y.op == "num" for y in x.a[1:]):
                n = x.a[0].split("::")[-1]
                v = [y.a[0] for y in x.a[1:]]
                if n in ("abs", "unsigned_abs"):
                    m[x] = const(abs(v[0]))
                elif n == "rem_euclid":
                    m[x] = const(v[0] % abs(v[1]))
                elif n in ("saturating_sub",):
                    m[x] = const(max(0, v[0] - v[1]))
                elif n == "abs_diff":
                    m[x] = const(abs(v[0] - v[1]))
                elif n in ("mod_floor",):
                    m[x] = const(v[0] % v[1])
                elif n in ("div_floor", "div_euclid"):
                    m[x] = const(v[0] // v[1])
                elif n == "div_ceil":
                    m[x] = const(-(-v[0] // v[1]))
                elif n == "pow" and v[1].denominator == 1 and 0 <= v[1] < 200:
                    m[x] = const(v[0] ** int(v[1]))
                elif n == "powi" and v[1].denominator == 1 and (v[1] >= 0 or v[0] != 0):
                    m[x] = const(Fraction(v[0]) ** int(v[1]))
                elif n == "log2" and v[0] > 0:
                    m[x] = const(Fraction(math.log2(v[0])))
                elif n in ("ilog2", "checked_ilog2") and v[0] > 0:
                    m[x] = const(int(v[0]).bit_length() - 1)
                elif n in ("ceil", "floor", "trunc", "round"):
                    m[x] = const({"ceil": math.ceil, "floor": math.floor, "trunc": math.trunc, "round": lambda z: math.floor(z + Fraction(1, 2))}[n](v[0]))
                elif n == "next_power_of_two":
                    m[x] = const(1 << max(0, int(v[0]) - 1).bit_length())
                elif n == "sqrt" and v[0] >= 0 and math.isqrt(v[0].numerator) ** 2 == v[0].numerator and math.isqrt(v[0].denominator) ** 2 == v[0].denominator:
                    m[x] = const(Fraction(math.isqrt(v[0].numerator), math.isqrt(v[0].denominator)))
                elif n == "clamp":
                    m[x] = const(min(max(v[0], v[1]), v[2]))
                elif n in ("min", "max"):
                    m[x] = const(min(v) if n == "min" else max(v))
            elif x.op == "bin" and x.a[0].startswith(("Shl", "Shr")) and x.a[1].op == "num" and x.a[2].op == "num" and 0 <= x.a[2].a[0] < 128:
                a, b = int(x.a[1].a[0]), int(x.a[2].a[0])
                m[x] = const(a << b if x.a[0].startswith("Shl") else a >> b)
            elif x.op in ("toint", "tofloat", "cast") and x.a[0].op == "num":
                m[x] = x.a[0]
        if not m:
            return t
        t = subst(t, m)
    return t


def value(t, env):
    r = _fold(subst(t, env))
    if r.op == "num":
        return r.a[0]
    if r.op == "bool":
        return True if r.a[0] == 1 else False if r.a[0] == 0 else None
    return None


def same_function(t, want, points):
    """None if t equals want() on every grid point, else a description. points: iterable of (env, wanted value)"""
    n = 0
    for env, w in points:
        v = value(t, env)
        n += 1
        if v is None:
            return "not an arithmetic function of its inputs (%s)" % show(_fold(subst(t, env)), 5)[:160]
        if v != w:
            return "for %s it is %s instead of %s" % (", ".join("%s=%s" % (show(k, 3), show(x, 2)) for k, x in env.items()), v, w)
    return None


def consts_in(t, lim=4):
    """integer constants of the expression beyond the ones a small grid already separates"""
    out = set()
    for x in subterms(t):
        if x.op == "num":
            out.add(abs(x.a[0]))
        elif x.op == "poly":
            for mono, co in x.a[0]:
                out.add(abs(co))
    return sorted(int(v) for v in out if v.denominator == 1 and lim < v <= 4096)
