"""Value of an extracted term (loop summaries included) for given small inputs: the term language read as a table.
Nothing of the analysed program is executed; only its extracted transfer functions are looked up point by point."""
from fractions import Fraction
import terms
from terms import *
from cells import Unknown, name

PASS = ("clone", "iter", "into_iter", "cloned", "copied", "to_vec", "as_slice", "deref", "to_owned", "as_ref", "as_mut", "iter_mut", "into_ref", "borrow", "from_iter", "into_vec", "from")
MISS = object()


class Rec(dict):
    """a struct or enum value"""
    def __init__(self, variant, **k):
        super().__init__(**k)
        self.variant = variant

    def __hash__(self):
        return hash((self.variant, tuple(sorted((k, freeze(v)) for k, v in self.items()))))

    def __eq__(self, o):
        return isinstance(o, Rec) and self.variant == o.variant and dict.__eq__(self, o)

    def __ne__(self, o):
        return not self == o


def freeze(v):
    return tuple(freeze(x) for x in v) if isinstance(v, (list, tuple)) else v


def Some(v):
    return Rec("Some", **{"0": v})


None_ = Rec("None")


class Conc:
    def __init__(self, E, env, limit=500):
        self.E = E
        self.env = env
        self.ctx = {}        # loop variable / element / position -> value now
        self.act = set()     # loops being walked
        self.memo = {}
        self.done = {}
        self.limit = limit

    def __call__(self, t):
        for d in (self.ctx, self.env, self.memo):
            v = d.get(t, MISS)
            if v is not MISS:
                return v
        try:
            v = self.ev(t)
        except (TypeError, IndexError, ValueError, ZeroDivisionError, KeyError, AttributeError, OverflowError) as x:
            raise Unknown("%s: %s" % (type(x).__name__, x))
        self.memo[t] = v
        return v

    def within(self, bind, f):
        sc, sm = self.ctx, self.memo
        self.ctx, self.memo = {**sc, **bind}, {}
        try:
            return f()
        finally:
            self.ctx, self.memo = sc, sm

    def truth(self, n):
        while n > 1:
            v, lo, hi = terms._bn[n]
            n = hi if self(terms._vars[v]) else lo
        return n == 1

    # -- loops
    def items(self, src):
        """[bindings per turn]"""
        if src.op == "enumerate" or src.op == "call" and name(src) == "enumerate":
            inner = src.a[0] if src.op == "enumerate" else src.a[1]
            return [{**m, pos(src): k, mk("elem", src): (k, self.item(inner, m))} for k, m in enumerate(self.items(inner))]
        if src.op == "zip":
            return [{**x, **y} for x, y in zip(self.items(src.a[0]), self.items(src.a[1]))]
        if src.op == "seq":
            out = []
            for m in self.items(src.a[0]):
                if self.within(m, lambda: self.truth(asb(src.a[2]))):
                    v = self.within(m, lambda: self(src.a[1]))
                    out.append({**m, pos(src): len(out), mk("elem", src): v})
            return out
        if src.op == "call" and name(src) in ("skip", "take", "rev", "step_by") and src.a[1].op in ("enumerate", "zip", "seq"):
            ms = self.items(src.a[1])
            n = int(self(src.a[2])) if len(src.a) > 2 else 0
            ms = {"skip": ms[n:], "take": ms[:n], "rev": ms[::-1], "step_by": ms[::n or 1]}[name(src)]
            return [{**m, pos(src): k, mk("elem", src): self.item(src.a[1], m)} for k, m in enumerate(ms)]
        l = self(src)
        if not isinstance(l, (list, tuple)):
            raise Unknown("loop over " + show(src, 3)[:80])
        return [{pos(src): k, mk("elem", src): v} for k, v in enumerate(l)]

    def item(self, src, m):
        e = mk("elem", src)
        return m[e] if e in m else self.within(m, lambda: self(elem(src)))

    def loop(self, lid):
        E = self.E
        lvs = [x for x, i in E.loopinfo.items() if i[2] is lid and x.op == "loopvar"]
        src = E.lsrc.get(lid)
        back = E.lback.get(lid)
        if back is None:
            raise Unknown("loop without a recorded way back")
        lazy = Lazy(self, {x: E.loopinfo[x][0] for x in lvs})
        # only what is asked for is computed; the initial values are looked up outside
        cur = {x: lazy.get(x) for x in lvs}
        turns = self.items(src) if src is not None else None
        k = 0
        while turns is None or k < len(turns):
            if k > self.limit:
                raise Unknown("loop does not end")
            bind = {x: v for x, v in cur.items() if v is not MISS}
            if turns is not None:
                bind.update(turns[k])
                bind[mk("is", mk("iternext", src), "Some")] = True
            go = self.within(bind, lambda: self.truth(back))
            if not go:
                if turns is not None:
                    # left early: what follows sees the item and the values of this turn
                    self.memo.update(turns[k])
                    self.memo[mk("is", mk("iternext", src), "Some")] = True
                    return cur
                break
            nxt = {}
            for x in lvs:
                if x not in bind or E.loopinfo[x][1] is None:
                    nxt[x] = MISS
                    continue
                try:
                    nxt[x] = self.within(bind, lambda: self(E.loopinfo[x][1]))
                except Unknown:
                    nxt[x] = MISS
            cur = nxt
            k += 1
        if src is not None:
            self.memo[mk("is", mk("iternext", src), "Some")] = False
        return cur

    # -- terms
    def ev(self, t):
        o, a = t.op, t.a
        if o == "num":
            return int(a[0]) if a[0].denominator == 1 else a[0]
        if o == "lit":
            return a[0]
        if o == "bool":
            return self.truth(a[0])
        if o == "ite":
            return self(a[1] if self.truth(a[0]) else a[2])
        if o == "poly":
            s = 0
            for mono, co in a[0]:
                p = co
                for x in mono:
                    p = p * self.num(x)
                s += p
            return int(s) if Fraction(s).denominator == 1 else s
        if o == "lt0":
            return self.num(a[0]) < 0
        if o == "eq0":
            return self.num(a[0]) == 0
        if o in ("flt", "fle"):
            x, y = self.num(a[0]), self.num(a[1])
            return x < y if o == "flt" else x <= y
        if o == "eq":
            return self(a[0]) == self(a[1])
        if o == "is" and a[0].op == "iternext" and a[1] == "Some":
            # after the loop: was it left before its end?
            lid = next((l for l, x in self.E.lsrc.items() if x is a[0].a[0]), None)
            if lid is None:
                raise Unknown("iternext")
            for x, v in self.loop(lid).items():
                if v is not MISS:
                    self.memo[x] = v
            return self.memo[t]
        if o == "is":
            v = self(a[0])
            if not isinstance(v, Rec):
                raise Unknown("variant of " + show(a[0], 3)[:80])
            return v.variant == a[1]
        if o in ("idiv", "idivf", "mod", "modf", "fdiv", "divceil"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise Unknown("division by zero")
            if o == "fdiv":
                return Fraction(x) / y
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return {"idiv": q, "idivf": x // y, "mod": x - q * y, "modf": x % y, "divceil": -(-x // y)}[o]
        if o in ("min", "max"):
            return (min if o == "min" else max)(*[self.num(x) for x in a])
        if o in ("tofloat", "toint", "cast"):
            return self(a[0])
        if o == "tuple":
            return tuple(self(x) for x in a)
        if o == "array":
            return [self(x) for x in a]
        if o == "adt":
            d = {k: self(v) for k, v in a[2]}
            if a[0].split("::")[-1] in ("Range", "RangeInclusive") and "start" in d and "end" in d:
                return list(range(d["start"], d["end"] + (1 if a[0].endswith("Inclusive") else 0)))
            return Rec(a[1], **d)
        if o == "upd":
            v = self(a[0])
            if isinstance(v, Rec):
                r = Rec(v.variant, **v)
                for k, x in a[1] if isinstance(a[1], (tuple, list)) else ():
                    r[k.split(".")[-1] if isinstance(k, str) else k] = self(x)
                return r
            raise Unknown("update of " + show(a[0], 3)[:80])
        if o == "field":
            v = self(a[0])
            k = a[1]
            if isinstance(v, tuple) and str(k).isdigit():
                return v[int(k)]
            if isinstance(v, Rec):
                kk = str(k)
                if "." in kk:
                    var, kk = kk.split(".", 1)
                    if v.variant != var:
                        raise Unknown("payload of the wrong variant")
                if kk in v:
                    return v[kk]
                if kk == "0":
                    return v        # a transparent wrapper
            raise Unknown("field %s of %s" % (k, show(a[0], 3)[:80]))
        if o == "index":
            l, k = self(a[0]), self(a[1])
            if isinstance(l, dict) and not isinstance(l, Rec):
                return l[k]
            if isinstance(l, (list, tuple)) and isinstance(k, int) and 0 <= k < len(l):
                return l[k]
            if isinstance(l, (list, tuple)) and isinstance(k, list):
                return [l[i] for i in k]
            raise Unknown("index")
        if o in ("seq", "enumerate", "zip"):
            return [self.item(t, m) for m in self.items(t)]
        if o == "collect":
            return self(a[0])
        if o == "flat":
            return [y for x in self(a[0]) for y in x]
        if o == "elem":
            raise Unknown("item outside its loop: " + show(t, 3)[:80])
        if o == "append":
            return list(self(a[0])) + [self(a[1])]
        if o == "loopvar":
            lid = self.E.loopinfo[t][2] if t in self.E.loopinfo else None
            if lid is None:
                raise Unknown("loop variable " + show(t, 3)[:80])
            key = (lid, frozenset(self.ctx.items())) if False else None
            r = self.loop(lid)
            for x, v in r.items():
                if v is not MISS:
                    self.memo[x] = v
            if r.get(t, MISS) is MISS:
                raise Unknown("loop variable " + show(t, 3)[:80])
            return r[t]
        if o == "exists":
            return any(self.within(m, lambda: self.truth(asb(a[1]))) for m in self.items(a[0]))
        if o == "call":
            return self.call(t, name(t), a[1:])
        if o == "mut":
            return self.mut(t, name(t), a[1], a[2:])
        raise Unknown("%s: %s" % (o, show(t, 3)[:80]))

    def num(self, t):
        v = self(t)
        if isinstance(v, bool) or not isinstance(v, (int, Fraction)):
            raise Unknown("no number: " + show(t, 3)[:80])
        return v

    def call(self, t, n, a):
        if n in PASS and len(a) == 1:
            return self(a[0])
        if n in ("new", "default") and not a or n == "with_capacity":
            return []
        v = [self(x) for x in a]
        l = v[0] if v else None
        if isinstance(l, (list, tuple)):
            if n in ("len", "count", "partition_point"):
                return len(l)
            if n == "is_empty":
                return not l
            if n in ("first", "last"):
                return (Some(l[0 if n == "first" else -1]) if l else None_)
            if n == "chain":
                return list(l) + list(v[1])
            if n == "sum":
                return sum(l)
            if n == "rev":
                return list(l)[::-1]
            if n in ("skip", "take"):
                return list(l)[v[1]:] if n == "skip" else list(l)[:v[1]]
            if n == "get" and isinstance(v[1], int):
                return Some(l[v[1]]) if 0 <= v[1] < len(l) else None_
            if n == "contains":
                return v[1] in l
            if n == "windows":
                return [list(l[i:i + v[1]]) for i in range(len(l) - v[1] + 1)]
            if n == "concat":
                return [x for y in l for x in y]
        if n == "once":
            return [v[0]]
        if n in ("from_elem", "repeat_n"):
            return [v[0]] * v[1]
        if n == "unwrap_or" and isinstance(l, Rec):
            return l["0"] if l.variant in ("Some", "Ok") else v[1]
        if n in ("eq", "ne", "lt", "le", "gt", "ge") and len(v) == 2:
            x, y = v
            return {"eq": x == y, "ne": x != y, "lt": None, "le": None, "gt": None, "ge": None}[n] if n in ("eq", "ne") else {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[n]
        if n in ("saturating_sub", "abs_diff", "min", "max", "checked_sub") and all(isinstance(x, int) for x in v):
            x, y = v
            return {"saturating_sub": max(0, x - y), "abs_diff": abs(x - y), "min": min(x, y), "max": max(x, y), "checked_sub": Some(x - y) if x >= y else None_}[n]
        raise Unknown("call of %s" % n)

    def mut(self, t, n, i, a):
        if i != 0:
            raise Unknown("change by " + n)
        l = self(a[0])
        v = [self(x) for x in a[1:]]
        if isinstance(l, (list, tuple)):
            l = list(l)
            if n in ("push", "push_back"):
                return l + [v[0]]
            if n in ("extend", "append", "extend_from_slice"):
                return l + list(v[0])
            if n == "resize":
                return l[:v[0]] + [v[1]] * max(0, v[0] - len(l))
            if n == "insert":
                return l[:v[0]] + [v[1]] + l[v[0]:]
            if n == "pop":
                return l[:-1]
            if n == "truncate":
                return l[:v[0]]
            if n == "clear":
                return []
            if n == "reverse":
                return l[::-1]
            if n in ("reserve", "shrink_to_fit"):
                return l
        raise Unknown("change by " + n)


class Lazy:
    def __init__(self, C, init):
        self.C, self.init = C, init

    def get(self, x):
        try:
            return self.C(self.init[x])
        except Unknown:
            return MISS
