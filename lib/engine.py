"""Context-sensitive forward dataflow over the resolved MIR dumped by /verif/driver.

For an entry function the analysis inlines every callee whose body belongs to the crate, keeps a
store of value terms per memory root, joins stores with gated (if-then-else) terms at merge
points, widens at loop headers, and records an event for every call it does not inline together
with the path condition (a BDD over atomic tests) and the loop nest it happens under.
"""
import json
import renames
import re
import sys
from terms import *

sys.setrecursionlimit(20000)


def strip_generics(p):
    """remove <...> groups that are generic arguments; keep `<impl ..>` out"""
    p = p.replace("::<", "<")
    out = []
    d = 0
    i = 0
    if p.startswith("<"):
        # <T as Trait>::name  -> Trait::name ; <impl X>::name -> name
        depth = 0
        for j, ch in enumerate(p):
            if ch == "<":
                depth += 1
            elif ch == ">" and p[j - 1] != "-":
                depth -= 1
                if depth == 0:
                    break
        inner, rest = p[1:j], p[j + 1:]
        m = re.search(r" as (.*)$", inner)
        return strip_generics((m.group(1) if m else inner) + rest)
    for j, ch in enumerate(p):
        if ch == "<":
            d += 1
        elif ch == ">" and (j == 0 or p[j - 1] != "-"):
            d -= 1
        elif d == 0:
            out.append(ch)
    r = "".join(out)
    return re.sub(r"::(::)+", "::", r)


def upd_bases(v, acc, d=0):
    """bases of a value made of conditional field updates of one value"""
    if d > 12:
        return False
    if v.op == "ite":
        return upd_bases(v.a[1], acc, d + 1) and upd_bases(v.a[2], acc, d + 1)
    acc.add(v.a[0] if v.op == "upd" else v)
    return len(acc) == 1


def changed(v, o, pre, acc):
    """string-key paths where v may differ from o"""
    if v is o:
        return
    if v.op == "ite":
        changed(v.a[1], o, pre, acc)
        changed(v.a[2], o, pre, acc)
    elif v.op == "upd" and all(isinstance(k, str) for k, _ in v.a[1]):
        changed(v.a[0], o, pre, acc)
        for k, x in v.a[1]:
            changed(x, proj1(o, k), pre + (k,), acc)
    else:
        acc.add(pre)


def upd_keys(v, acc):
    if v.op == "ite":
        upd_keys(v.a[1], acc)
        upd_keys(v.a[2], acc)
    elif v.op == "upd":
        acc.update(k for k, _ in v.a[1])


class Program:
    def __init__(self, files):
        self.bodies = {}
        self.adts = {}
        self.impls = []
        dumps, self.renamed = renames.apply([json.load(open(f)) for f in files])
        for d in dumps:
            pre = "" if d["kind"] == "lib" else "bin!"
            for b in d["bodies"]:
                b["key"] = pre + b["key"]
                b["crate_kind"] = d["kind"]
                b["pre"] = pre
                self.bodies[b["key"]] = b
            for a in d["adts"]:
                self.adts[a["path"]] = a
            for i in d["impls"]:
                self.impls.append(i)
        self._cfg = {}
        self.by_path = {}
        for b in self.bodies.values():
            if "promoted[" in b["key"]:
                continue
            self.by_path.setdefault(strip_generics(b["path"]), []).append(b)

    # ---- lookup helpers
    def fns(self, pred):
        return [b for b in self.bodies.values() if "promoted[" not in b["key"] and pred(b)]

    def handler(self, actor, msg):
        """body of <actor as Handler<msg>>::handle; names are last path segments"""
        r = []
        for b in self.bodies.values():
            if b.get("trait", "").endswith("Handler") and b.get("name") == "handle" and "promoted[" not in b["key"]:
                ta = b["trait_args"]
                if base(ta[0]) == actor and base(ta[1]) == msg:
                    r.append(b)
        return r[0] if r else None

    def handlers(self):
        r = {}
        for b in self.bodies.values():
            if b.get("trait", "") == "actix::Handler" and b.get("name") == "handle" and "promoted[" not in b["key"]:
                r[(base(b["trait_args"][0]), base(b["trait_args"][1]))] = b
        return r

    def method(self, self_ty, name, trait=None):
        for b in self.bodies.values():
            if "promoted[" in b["key"]:
                continue
            if b.get("name") == name and b.get("self_ty") and base(b["self_ty"]) == self_ty:
                if trait is None or base(b.get("trait", "")) == trait:
                    return b
        return None

    def tmethod(self, self_ty, name, trait):
        """impl method of a local trait for a concrete type"""
        ix = getattr(self, "_tm", None)
        if ix is None:
            ix = self._tm = {}
            for b in self.bodies.values():
                if b.get("trait") and b.get("self_ty") and "promoted[" not in b["key"]:
                    ix[(strip_generics(b["self_ty"]), b["name"], strip_generics(b["trait"]))] = b
        return ix.get((strip_generics(self_ty), name, strip_generics(trait)))

    def func(self, name, mod=None):
        for b in self.bodies.values():
            if "promoted[" in b["key"]:
                continue
            if b.get("name") == name and not b.get("self_ty") and (mod is None or mod in b["path"]):
                return b
        return None

    # ---- CFG
    def cfg(self, body):
        k = body["key"]
        if k not in self._cfg:
            self._cfg[k] = CFG(body)
        return self._cfg[k]


def base(ty):
    """last path segment of a type without generics"""
    ty = ty.strip()
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    ty = strip_generics(ty) if not ty.startswith("<") else ty
    return ty.split("::")[-1]


class CFG:
    def __init__(self, body):
        bl = body["blocks"]
        n = len(bl)
        self.succ = {}
        for i in range(n):
            if bl[i] is None:
                continue
            t = bl[i]["t"]
            k = t["k"]
            if k in ("goto", "drop", "assert", "yield"):
                s = [t["t"]]
            elif k == "switch":
                s = [c[1] for c in t["cases"]] + [t["else"]]
            elif k == "call":
                s = [t["t"]] if "t" in t else []
            else:
                s = []
            self.succ[i] = [x for x in dict.fromkeys(s) if bl[x] is not None]
        # RPO
        order, seen = [], set()
        st = [(0, iter(self.succ.get(0, [])))]
        seen.add(0)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ.get(s, []))))
                    adv = True
                    break
            if not adv:
                order.append(b)
                st.pop()
        self.rpo = order[::-1]
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        self.pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                if s in self.pred:
                    self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps:
                    continue
                nd = ps[0]
                for p in ps[1:]:
                    x, y = p, nd
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = idom[x]
                        while self.idx[y] > self.idx[x]:
                            y = idom[y]
                    nd = x
                if idom.get(b) != nd:
                    idom[b] = nd
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    body_ = self.loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body_:
                            body_.add(x)
                            stack += self.pred[x]
        # region order: blocks of a loop must be contiguous before exits: compute order lazily
        self.assigned_in = {}
        for h, nodes in self.loops.items():
            a = set()
            for x in nodes:
                for st_ in bl[x]["s"]:
                    if "d" in st_ and not st_["d"]["p"]:
                        a.add(st_["d"]["l"])
                t = bl[x]["t"]
                if t["k"] == "call" and not t["d"]["p"]:
                    a.add(t["d"]["l"])
            self.assigned_in[h] = a

        # blocks from which the function can end normally; all others only panic
        self.ends = {b for b in self.rpo if bl[b]["t"]["k"] == "return"}
        todo = list(self.ends)
        while todo:
            for p in self.pred[todo.pop()]:
                if p not in self.ends:
                    self.ends.add(p)
                    todo.append(p)
        if not self.ends:
            self.ends = set(self.rpo)

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0 or b not in self.idom:
                return False
            b = self.idom[b]

    def innermost(self, b):
        best = None
        for h, nodes in self.loops.items():
            if b in nodes and (best is None or len(nodes) < len(self.loops[best])):
                best = h
        return best


class Event:
    __slots__ = ("kind", "fn", "name", "gargs", "self_ty", "args", "raw", "cond", "loops", "stack", "span", "idx", "res", "extra", "argty", "store", "path")

    def __repr__(self):
        return "<%s %s<%s>(%s) if %s loops=%s @%s>" % (self.kind, self.fn, ",".join(self.gargs or []), ", ".join(show(a, 5) for a in self.args), showb(self.cond), [show(l, 4) for l in self.loops], self.span[:2] if self.span else None)


class Budget(Exception):
    pass


TRANSPARENT = {
    # value-preserving adaptors: result denotes (a view of) the first argument
    "std::clone::Clone::clone", "std::borrow::ToOwned::to_owned", "std::borrow::Borrow::borrow", "std::convert::AsRef::as_ref",
    "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::iter::IntoIterator::into_iter", "std::convert::AsMut::as_mut",
    "std::borrow::BorrowMut::borrow_mut",
    "std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::sync::Mutex::new", "std::pin::Pin::new_unchecked", "std::pin::Pin::new",
    "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::string::String::as_str", "std::string::ToString::to_string",
    "std::iter::Iterator::cloned", "std::iter::Iterator::copied", "std::iter::Iterator::by_ref", "std::iter::Iterator::fuse", "std::iter::Iterator::peekable",
    "std::future::IntoFuture::into_future", "std::pin::Pin::get_mut", "std::boxed::Box::into_pin", "std::boxed::Box::pin", "std::pin::Pin::as_mut",
    "std::convert::identity", "std::hint::must_use", "std::mem::ManuallyDrop::new", "std::iter::Iterator::into_iter",
    "std::hint::black_box",
}
# inherent methods addressed by last name when the receiver type is a collection / array
TRANSPARENT_NAMES = {"iter", "iter_mut", "to_vec", "view", "view_mut", "to_owned", "into_owned", "to_shared", "into_shared", "into_vec", "into_boxed_slice", "as_slice", "as_standard_layout", "into_inner", "get_ref", "by_ref", "as_deref", "as_deref_mut", "into_raw_vec", "as_str", "into_iter", "into_dyn", "reborrow", "drain_all"}
INTEGER_FNS = {
    "num_integer::Integer::div_floor": "idiv", "num_integer::div_floor": "idiv", "num_integer::Integer::mod_floor": "mod", "num_integer::mod_floor": "mod",
    "num_integer::Integer::div_ceil": "divceil", "num_integer::div_ceil": "divceil",
}
DIVERGE = {"std::rt::begin_panic", "core::panicking::panic_fmt", "core::panicking::panic", "std::process::exit", "core::panicking::assert_failed", "core::panicking::panic_display", "core::panicking::unreachable_display", "std::rt::panic_fmt", "core::panicking::panic_str_2015", "core::panicking::panic_explicit"}


class Frame:
    __slots__ = ("id", "body", "subst", "cfg", "stack", "loopstack", "parent")


class Engine:
    def __init__(self, prog, budget=400000, opaque=None, max_depth=40, inline_pred=None):
        self.p = prog
        self.budget = budget
        self.recmods = {}
        self.opaque = opaque or (lambda b: False)
        self.max_depth = max_depth
        self.events = []
        self.ev_on = True
        self.loops = []           # loop source terms currently active
        self.frames = {}
        self.cbres = {}           # (event index, argument) -> result of a callback passed to an opaque call
        self.loopinfo = {}        # loopvar term -> (init, step, loop id)
        self.steps = 0
        self.notes = []
        self.visited = set()
        self.calls_seen = 0
        self.lsrc = {}
        self.ldrv = {}          # loop -> block of the call that drives it
        self.lback = {}         # loop -> condition of another turn
        self.lentry = {}        # loop -> condition of reaching it
        self.cur = None

    # ------------------------------------------------------------ public
    def run(self, body, args=None, state=None, gsub=None, cond=1):
        if args is None:
            args = []
            names = {}
            for i in range(1, body["argc"] + 1):
                nm = body["locals"][i][1] or "arg%d" % i
                args.append(sym(nm))
        self.state0 = state or {}
        self.events = []
        r = self.call_body(body, args, dict(self.state0), cond, None, None, gsub or {})
        self.ret, self.final, self.retcond = r
        return self

    # ------------------------------------------------------------ helpers
    def frame(self, parent, site, body, gsub):
        pk = parent.id if parent else None
        k = (pk, site, body["key"])
        fid = self.frames.setdefault(k, len(self.frames))
        f = Frame()
        f.id = fid
        f.body = body
        f.subst = gsub
        f.cfg = self.p.cfg(body)
        f.stack = (parent.stack if parent else ()) + (body["key"],)
        f.loopstack = []
        f.parent = parent
        return f

    def ty(self, f, s):
        for k, v in f.subst.items():
            if k in s:
                s = re.sub(r"(?<![\w:])%s(?!\w)" % re.escape(k), lambda m: v, s)
        return s

    def read_root(self, st, root):
        v = st.get(root)
        if v is None:
            if root[0] == "O":
                return root[1]
            return UNDEF
        return v

    def read(self, st, root, ks):
        return proj(self.read_root(st, root), ks)

    def write(self, st, root, ks, v):
        st[root] = update(self.read_root(st, root), ks, v)
        if root[0] == "O" and self.ev_on and self.cur is not None:
            cond, f, sp = self.cur
            self.event("write", "write", [mk("placeref", root[1], ks)], cond, f, sp, st, "write", raw=[root, ks, v], extra=(root, ks, self.val(st, v)))

    def deref_targets(self, v):
        """[(cond, root, ks)] of a pointer value"""
        if v.op == "ref":
            return [(1, v.a[0], v.a[1])]
        if v.op == "ite" and nleaves(v) <= 12:
            out = []
            for c, l in leaves(v):
                for c2, r, k in self.deref_targets(l):
                    out.append((band(c, c2), r, k))
            return out
        return [(1, ("O", v), ())]

    def place(self, st, f, pl):
        """resolve to [(cond, root, keys)]"""
        cur = [(1, ("L", f.id, pl["l"]), ())]
        pend = None
        for e in pl["p"]:
            if e == "*":
                nxt = []
                for c, r, k in cur:
                    v = self.read(st, r, k)
                    for c2, r2, k2 in self.deref_targets(v):
                        cc = band(c, c2)
                        if cc != 0:
                            nxt.append((cc, r2, k2))
                cur = nxt
                continue
            if "dc" in e:
                pend = e["dc"]
                continue
            if "f" in e:
                k = e["f"]
                if pend is not None:
                    k = pend + "." + k
                    pend = None
            elif "ix" in e:
                k = ("ix", self.read(st, ("L", f.id, e["ix"]), ()))
            elif "ci" in e:
                k = ("ix", const(e["ci"]) if not e["end"] else mk("fromend", const(e["ci"])))
            elif "sub" in e:
                k = ("ix", mk("subslice", *[const(x) if not isinstance(x, bool) else const(int(x)) for x in e["sub"]]))
            else:
                continue
            nxt = []
            for c, r, ks in cur:
                # smart pointers are transparent: a field of a pointer value is a field of its target
                n = 0
                while n < 4:
                    v = self.read(st, r, ks)
                    if v.op != "ref":
                        break
                    r, ks = v.a[0], v.a[1]
                    n += 1
                nxt.append((c, r, ks + (k,)))
            cur = nxt
        return cur

    def readp(self, st, f, pl):
        cur = self.place(st, f, pl)
        if not cur:
            return UNDEF
        v = self.read(st, cur[-1][1], cur[-1][2])
        for c, r, k in reversed(cur[:-1]):
            v = ite(c, self.read(st, r, k), v)
        return v

    def writep(self, st, f, pl, v):
        cur = self.place(st, f, pl)
        self.write_targets(st, cur, v)

    def write_targets(self, st, cur, v):
        if len(cur) == 1:
            self.write(st, cur[0][1], cur[0][2], v)
        else:
            for c, r, k in cur:
                self.write(st, r, k, ite(c, v, self.read(st, r, k)))

    def refp(self, st, f, pl):
        cur = self.place(st, f, pl)
        if not cur:
            return UNDEF

        def m(r, k):
            if r[0] == "O" and not k:
                # reborrow of an opaque reference: same pointer
                if r not in st:
                    return r[1]
            return mk("ref", r, k)
        v = m(cur[-1][1], cur[-1][2])
        for c, r, k in reversed(cur[:-1]):
            v = ite(c, m(r, k), v)
        return v

    def val(self, st, t, depth=0):
        """dereference references (deep, through aggregates)"""
        if depth > 12:
            return t
        if t.op == "ref":
            return self.val(st, self.read(st, t.a[0], t.a[1]), depth + 1)
        if t.op == "ite":
            return ite(t.a[0], self.val(st, t.a[1], depth + 1), self.val(st, t.a[2], depth + 1))
        if t.op == "adt":
            return mk("adt", t.a[0], t.a[1], tuple((k, self.val(st, v, depth + 1)) for k, v in t.a[2]))
        if t.op == "tuple":
            return mk("tuple", *[self.val(st, v, depth + 1) for v in t.a])
        if t.op == "array" and any(v.op == "ref" for v in t.a):
            return mk("array", *[self.val(st, v, depth + 1) for v in t.a])
        if t.op == "upd":
            return mk("upd", t.a[0], tuple((k, self.val(st, v, depth + 1)) for k, v in t.a[1]))
        if t.op == "call" and t.a[0].endswith("::from_elem") and (t.a[1].op == "ref" or t.a[1].op == "index" and t.a[1].a[0].op == "ref"):
            x = t.a[1]
            x = mk("index", self.val(st, x.a[0], depth + 1), x.a[1]) if x.op == "index" else self.val(st, x, depth + 1)
            return mk("call", t.a[0], x, *t.a[2:])
        r = ("O", t)
        if r in st:
            return st[r]
        if t.op == "field":
            b, ks = t, []
            while b.op == "field":
                ks.append(b.a[1])
                b = b.a[0]
            if b.op == "ref":
                return self.val(st, proj(self.val(st, b, depth + 1), tuple(reversed(ks))), depth + 1)
        return t

    def operand(self, st, f, o):
        if "cp" in o:
            return self.readp(st, f, o["cp"])
        if "mv" in o:
            return self.readp(st, f, o["mv"])
        if "c" in o:
            return self.constant(st, f, o["c"])
        return mk("unkop", str(o)[:60])

    def constant(self, st, f, c):
        if "fn" in c:
            return mk("fnitem", FnRef.of(c["fn"], f, self))
        if "closure" in c:
            return mk("closure", f.body["pre"] + c["closure"], ())
        if "promoted" in c:
            b = self.p.bodies.get("%s::promoted[%d]" % (f.body["key"], c["promoted"]))
            if b is not None:
                on = self.ev_on
                self.ev_on = False
                try:
                    r = self.call_body(b, [], dict(st), 1, f, ("p", c["promoted"]), f.subst, keep=True)
                finally:
                    self.ev_on = on
                if r[1] is not None:
                    v = self.val(r[1], r[0])
                    return mk("ref", ("O", v), ())
        if "val" in c:
            v = c["val"]
            if isinstance(v, str):
                try:
                    return const(Fraction(v))
                except Exception:
                    return mk("lit", v)
            return const(v)
        if "str" in c:
            return mk("lit", c["str"])
        if c["ty"] == "()":
            return UNIT
        if "def" in c:
            return mk("const", c["def"], *[self.ty(f, x) for x in c.get("cargs", [])])
        m = re.match(r'^const (.*)$', c["repr"])
        return mk("lit", m.group(1) if m else c["repr"])

    def rvalue(self, st, f, r, cond):
        k = r["k"]
        if k == "use":
            return self.operand(st, f, r["a"])
        if k == "ref":
            return self.refp(st, f, r["pl"])
        if k == "cast":
            v = self.operand(st, f, r["a"])
            ck = r["ck"]
            if ck.startswith("IntToFloat"):
                return mapite(v, lambda x: x if x.op == "num" else mk("tofloat", x))
            if ck.startswith("FloatToInt"):
                return mapite(v, lambda x: mk("toint", x))
            if ck.startswith("IntToInt") and v.op == "bool":
                return ite(v.a[0], const(1), const(0))
            return v
        if k == "bin":
            return self.binop(r["op"], self.operand(st, f, r["a"]), self.operand(st, f, r["b"]), self.ty(f, r["ty"]))
        if k == "un":
            v = self.operand(st, f, r["a"])
            if r["op"] == "Not":
                if v.op in ("bool", "ite") or v.op == "is":
                    return boolt(bnot(asb(v)))
                return boolt(bnot(asb(v)))
            if r["op"] == "Neg":
                return neg(v)
            if r["op"] == "PtrMetadata":
                return mk("call", "len", self.val(st, v))
            return mk("un", r["op"], v)
        if k == "discr":
            v = self.readp(st, f, r["pl"])
            if v.op == "ref" and False:
                v = self.val(st, v)
            return mk("discr", v, tuple((a, b) for a, b in r["vars"]))
        if k == "agg":
            ops = [self.operand(st, f, o) for o in r["ops"]]
            ak = r["ak"]
            if ak == "tuple":
                return mk("tuple", *ops)
            if ak == "array":
                return mk("array", *ops)
            if ak == "adt":
                return adt(r["adt"], r["var"], list(zip(r["fn"], ops)))
            if ak in ("closure", "coroutine"):
                return mk("closure", f.body["pre"] + r["key"], tuple(zip(r["fn"], ops)))
            return ops[0] if ops else UNIT
        if k == "repeat":
            return mk("repeat", self.operand(st, f, r["a"]), r["n"])
        return mk("unkrv", r.get("s", "")[:80])

    def binop(self, op, a, b, ty):
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op == "AddWithOverflow":
            return mk("tuple", add(a, b), FALSE)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op == "SubWithOverflow":
            return mk("tuple", sub(a, b), FALSE)
        if op in ("Mul", "MulUnchecked"):
            return mul(a, b)
        if op == "MulWithOverflow":
            return mk("tuple", mul(a, b), FALSE)
        if op == "Div":
            return idiv(a, b) if isint(ty) and isuns(ty) else (idivt(a, b) if isint(ty) else fdiv(a, b))
        if op == "Rem":
            return mod(a, b, "mod" if isuns(ty) else "rem")
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if a.op == "discr" or b.op == "discr":
                pass
            return boolt(cmp(op.lower(), a, b, ty))
        if op in ("BitAnd", "BitOr", "BitXor") and ty == "bool":
            x, y = asb(a), asb(b)
            return boolt(band(x, y) if op == "BitAnd" else bor(x, y) if op == "BitOr" else bite(x, bnot(y), y))
        return mk("bin", op, a, b)

    # ------------------------------------------------------------ body evaluation
    def call_body(self, body, args, st, cond, parent, site, gsub, keep=False):
        """returns (ret, state, cond) ; state None when the call never returns"""
        f = self.frame(parent, site, body, gsub)
        self.visited.add(body["key"])
        for i, a in enumerate(args):
            st[("L", f.id, i + 1)] = a
        cfg = f.cfg
        outs = []
        self.region(f, set(cfg.rpo), 0, [(cond, st)], outs, None)
        rets = [(c, s) for (b, c, s) in outs if b == "ret"]
        if not rets:
            return UNDEF, None, 0
        c, s = self.merge(rets)
        rv = s.get(("L", f.id, 0), UNIT)
        if not keep:
            for r in [r for r in s if r[0] == "L" and r[1] == f.id]:
                del s[r]
        return rv, s, c

    def merge(self, ins):
        ins = [(c, s) for c, s in ins if c != 0]
        if not ins:
            return 0, {}
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        allc = bor(*[c for c, _ in ins])
        roots = set()
        for _, s in ins:
            roots |= set(s)
        out = {}
        for r in roots:
            vs = [self.read_root(s, r) for _, s in ins]
            v = vs[-1]
            if all(x is v for x in vs):
                out[r] = v
                continue
            for (c, _), x in list(zip(ins, vs))[-2::-1]:
                v = ite(brestrict(c, allc), x, v)
            out[r] = v
        return allc, out

    def region(self, f, nodes, start, entry, outs, backto):
        """evaluate blocks in `nodes` from `start`; edges to `backto` are collected as ('back',..),
        edges leaving nodes as (target, cond, state), returns as ('ret',..)"""
        cfg = f.cfg
        inc = {b: [] for b in nodes}
        inc[start] = list(entry)
        order = [b for b in cfg.rpo if b in nodes]
        done = set()
        # make loops contiguous: process headers' loops as units
        i = 0
        queue = order
        for b in queue:
            if b in done:
                continue
            ins = [x for x in inc[b] if x[0] != 0]
            if b in cfg.loops and b != backto:
                L = cfg.loops[b] & nodes
                done |= L
                if not ins:
                    continue
                exits = self.loop(f, b, L, ins)
                for t, c, s in exits:
                    if t == "ret":
                        outs.append((t, c, s))
                    elif t == backto:
                        outs.append(("back", c, s))
                    elif t in nodes:
                        inc[t].append((c, s))
                    else:
                        outs.append((t, c, s))
                continue
            done.add(b)
            if not ins:
                continue
            c, s = self.merge(ins)
            if c == 0:
                continue
            for t, c2, s2 in self.block(f, b, c, s):
                if c2 == 0:
                    continue
                if t == "ret":
                    outs.append((t, c2, s2))
                elif t == backto:
                    outs.append(("back", c2, s2))
                elif t in nodes:
                    if t in done and t != backto:
                        self.notes.append("irreducible edge in %s" % f.body["path"])
                        continue
                    inc[t].append((c2, s2))
                else:
                    outs.append((t, c2, s2, ) if len((t,)) else None)
                    outs[-1] = (t, c2, s2, b) if False else (t, c2, s2)
                    self._exit_src.setdefault(id(outs), []).append((t, b)) if False else None

    _exit_src = {}

    def loop(self, f, h, L, ins):
        cfg = f.cfg
        c0, s0 = self.merge(ins)
        if c0 == 0:
            return []
        lid = mk("loop", f.id, h)
        head = dict(s0)
        f.loopstack.append(h)
        saved_on = self.ev_on
        self.ev_on = False
        src = mk("while", lid)
        self.lsrc.pop(lid, None)
        try:
            for it in range(6):
                outs = []
                self.loops.append(src)
                try:
                    self.region(f, L, h, [(1, dict(head))], outs, h)
                finally:
                    self.loops.pop()
                backs = [(c, s) for (t, c, s) in outs if t == "back"]
                if not backs:
                    break
                _, sb = self.merge(backs)
                ch = False
                for r in set(sb) | set(head):
                    if r[0] == "L" and r not in s0:
                        continue
                    hv = self.read_root(head, r)
                    bv = self.read_root(sb, r)
                    if hv is bv or hv is UNDEF:
                        continue
                    nv = self.widen(lid, r, (), hv, bv, self.read_root(s0, r))
                    if nv is not hv:
                        head[r] = nv
                        ch = True
                if not ch:
                    # record steps
                    for r in set(sb):
                        if r[0] == "L" and r not in s0:
                            continue
                        self.record_steps(lid, self.read_root(head, r), self.read_root(sb, r), self.read_root(s0, r))
                    # induction variables
                    if it < 5 and self.induction(f, h, L, head, s0, sb, outs, lid):
                        continue
                    break
            if lid in self.lsrc:
                src = self.lsrc[lid]
        finally:
            self.ev_on = saved_on
        outs = []
        self.loops.append(src)
        try:
            self.region(f, L, h, [(c0, dict(head))], outs, h)
        finally:
            self.loops.pop()
            f.loopstack.pop()
        backs = [(c, s) for (t, c, s) in outs if t == "back"]
        exits = [(t, c, s) for (t, c, s) in outs if t != "back"]
        if not backs:
            return exits            # not really iterating
        # classify exits
        src = self.lsrc.get(lid, src)
        res = []
        early = []
        normal = []
        backc = bor(*[c for c, _ in backs])
        self.lback[lid] = brestrict(backc, c0)
        self.lentry[lid] = c0
        mores = [a for a in bsupport(bor(backc, *[c for _, c, _ in exits])) if a.op == "is" and a.a[0].op == "iternext"]
        for t, c, s in exits:
            # normal: exit taken exactly when the iteration does not start
            if mores and any(bimp(c, bnot(bvar(m))) for m in mores):
                normal.append((t, c, s))
            else:
                early.append((t, c, s))
        if not normal:
            # while-style loop: the guard exit is the one that is complementary to everything else
            for x in list(early):
                others = bor(backc, *[c for (t, c, s) in early if (t, c, s) is not x])
                if others and False:
                    pass
            if len(early) == 1 or len({t for t, _, _ in early}) == 1:
                return [(t, c0, s) for t, c, s in early[:1]] if len(early) == 1 else self.collapse(early, c0)
            g = self.guard_exit(f, h, L, early)
            if g is not None:
                normal = [g]
                early = [x for x in early if x is not g]
        ne = 1
        for t, c, s in early:
            rel = brestrict(c, c0)
            for m in mores:
                rel = bcompose(rel, {m: 1})
            ex = bvar(mk("exists", src, boolt(rel)))
            res.append((t, band(c0, ne, ex), s))
            if t in cfg.ends:
                # an iteration that panics leaves nothing to be analysed behind the loop
                ne = band(ne, bnot(ex))
        for t, c, s in normal:
            cc = bexists(brestrict(c, c0), lambda a: True)
            res.append((t, band(c0, ne), s))
            if len(normal) > 1:
                pass
        return res

    def collapse(self, early, c0):
        allc = bor(*[c for _, c, _ in early])
        t = early[0][0]
        c, s = self.merge([(c, s) for _, c, s in early])
        return [(t, c0, s)]

    def guard_exit(self, f, h, L, exits):
        """the exit edge whose source dominates every back edge source"""
        cfg = f.cfg
        bs = [b for b in L if h in cfg.succ[b]]
        best = None
        for b in [x for x in cfg.rpo if x in L]:
            if all(cfg.dom(b, x) for x in bs):
                for s in cfg.succ[b]:
                    if s not in L:
                        for e in exits:
                            if e[0] == s:
                                return e
        return best

    def widen(self, lid, r, path, hv, bv, iv):
        if hv is bv:
            return hv
        if hv.op == "loopvar" and hv.a[0] is lid:
            return hv
        if hv.op == "indvar":
            return hv
        if hv.op == "adt" and bv.op == "adt" and hv.a[:2] == bv.a[:2] and len(path) < 6:
            d = dict(bv.a[2])
            di = dict(iv.a[2]) if iv.op == "adt" and iv.a[:2] == hv.a[:2] else {}
            return mk("adt", hv.a[0], hv.a[1], tuple((k, self.widen(lid, r, path + (k,), v, d.get(k, v), di.get(k, v))) for k, v in hv.a[2]))
        if hv.op == "tuple" and bv.op == "tuple" and len(hv.a) == len(bv.a):
            ia = iv.a if iv.op == "tuple" and len(iv.a) == len(hv.a) else hv.a
            return mk("tuple", *[self.widen(lid, r, path + (str(i),), x, y, z) for i, (x, y, z) in enumerate(zip(hv.a, bv.a, ia))])
        if hv.op == "ite" or bv.op == "ite":
            bs = set()
            if upd_bases(hv, bs) and upd_bases(bv, bs) and len(bs) == 1:
                base = bs.pop()
                ks = set()
                upd_keys(hv, ks)
                upd_keys(bv, ks)
                if ks and all(isinstance(k, str) for k in ks) and len(path) < 8:
                    return mkupd(base, {k: self.widen(lid, r, path + (k,), proj1(hv, k), proj1(bv, k), proj1(iv, k)) for k in ks})
        bh = hv.a[0] if hv.op == "upd" else hv
        bb = bv.a[0] if bv.op == "upd" else bv
        if (hv.op == "upd" or bv.op == "upd") and bh is bb and len(path) < 8:
            dh = dict(hv.a[1]) if hv.op == "upd" else {}
            db = dict(bv.a[1]) if bv.op == "upd" else {}
            m = {}
            for k in set(dh) | set(db):
                x = dh.get(k)
                y = db.get(k)
                o = proj1(bh, k)
                x = o if x is None else x
                y = o if y is None else y
                if not isinstance(k, str):
                    return self.mklv(lid, r, path, hv, iv)
                m[k] = self.widen(lid, r, path + (k,), x, y, proj1(iv, k))
            return mkupd(bh, m)
        return self.mklv(lid, r, path, hv, iv)

    def mklv(self, lid, r, path, hv, iv):
        v = mk("loopvar", lid, mk("path", r, path))
        self.loopinfo.setdefault(v, [iv, None, lid])
        self.loopinfo[v][0] = iv
        return v

    def record_steps(self, lid, hv, bv, iv, d=0):
        if hv is bv or d > 10:
            return
        if hv.op == "loopvar" and hv.a[0] is lid:
            self.loopinfo[hv] = [iv, bv, lid]
            return
        if hv.op == "adt" and bv.op == "adt" and hv.a[:2] == bv.a[:2]:
            db = dict(bv.a[2])
            for k, v in hv.a[2]:
                self.record_steps(lid, v, db.get(k, v), proj1(iv, k), d + 1)
        elif hv.op == "tuple" and bv.op == "tuple" and len(hv.a) == len(bv.a):
            for i, (x, y) in enumerate(zip(hv.a, bv.a)):
                self.record_steps(lid, x, y, proj1(iv, str(i)), d + 1)
        elif hv.op == "upd":
            for k, v in hv.a[1]:
                self.record_steps(lid, v, proj1(bv, k), proj1(iv, k), d + 1)

    def induction(self, f, h, L, head, s0, sb, outs, lid):
        """rewrite `i` of `while i < n { .. i += 1 }` to the element of init..n; True if rewritten"""
        exits = [(c, t) for (t, c, s) in outs if t not in ("back",)]
        ch = False
        for r, hv in list(head.items()):
            if hv.op == "loopvar" and hv.a[0] is lid and r[0] == "L":
                bv = self.read_root(sb, r)
                if bv is add(hv, const(1)):
                    for c, t in exits:
                        sup = bsupport(c)
                        for at in sup:
                            if at.op != "lt0":
                                continue
                            # at: p<0 with p = hv - bound  or its negated form
                            p = at.a[0]
                            d = dict(p.a[0]) if p.op == "poly" else {(p,): Fraction(1)}
                            co = d.get((hv,))
                            bound = None
                            if co == 1 and c == bnot(bvar(at)):
                                bound = sub(hv, p)                 # exit when not(i - n < 0)
                            elif co == -1 and c == bvar(at):
                                bound = sub(add(p, hv), const(0))  # exit when n - i - 1 < 0 ... i.e. n-1-i<0
                                bound = add(bound, const(1))
                            if bound is None:
                                continue
                            if contains(bound, lambda x: x.op == "loopvar" and x.a[0] is lid):
                                continue
                            init = self.read_root(s0, r)
                            rng = adt("std::ops::Range", "Range", [("start", init), ("end", bound)])
                            head[r] = elem(rng)
                            self.lsrc[lid] = rng
                            for k, v in self.loopinfo.items():
                                if v[2] is lid and k is not hv and v[1] is not None:
                                    v[1] = subst(v[1], {hv: elem(rng)})
                            ch = True
                            break
                        if ch:
                            break
            if ch:
                break
        if ch:
            # the rewritten variable must not be widened again
            self._ind = getattr(self, "_ind", set())
        return False if not ch else self._ind_done(head)

    def _ind_done(self, head):
        return False

    # ------------------------------------------------------------ blocks
    def block(self, f, b, cond, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("budget exceeded in %s" % f.stack[0])
        bl = f.body["blocks"][b]
        for s in bl["s"]:
            self.cur = (cond, f, s.get("sp"))
            if "r" in s:
                v = self.rvalue(st, f, s["r"], cond)
                self.writep(st, f, s["d"], v)
        t = bl["t"]
        k = t["k"]
        if k in ("goto", "drop"):
            if k == "drop":
                self.drop(st, f, t, cond)
            return [(t["t"], cond, st)]
        if k == "assert":
            return [(t["t"], cond, st)]
        if k == "return":
            return [("ret", cond, st)]
        if k == "yield":
            self.writep(st, f, t["d"], mk("sym", "resume"))
            return [(t["t"], cond, st)]
        if k == "switch":
            return self.switch(f, t, cond, st)
        if k == "call":
            return self.call(f, b, t, cond, st)
        return []

    def drop(self, st, f, t, cond):
        pass

    def switch(self, f, t, cond, st):
        v = self.operand(st, f, t["a"])
        out = []
        rest = 1
        for val, tgt in t["cases"]:
            c = self.case(v, val, t["ty"])
            out.append((tgt, band(cond, rest, c), dict(st)))
            rest = band(rest, bnot(c))
        out.append((t["else"], band(cond, rest), st))
        # the side of an assertion that goes on does not depend on it (like unwrap and expect)
        live = [i for i, (g, c, _) in enumerate(out) if c != 0 and g in f.cfg.ends]
        if len(live) == 1:
            g, _, s2 = out[live[0]]
            out[live[0]] = (g, cond, s2)
        return out

    def case(self, v, val, ty):
        if v.op == "ite":
            return bite(v.a[0], self.case(v.a[1], val, ty), self.case(v.a[2], val, ty))
        if v.op == "discr":
            names = [a for a, b in v.a[1]]
            for a, b in v.a[1]:
                if b == val:
                    return is_variant(v.a[0], a, names)
            return 0
        if ty == "bool":
            x = asb(v)
            return x if val == "1" else bnot(x)
        if v.op == "num":
            return 1 if v.a[0] == int(val) else 0
        if ty == "char":
            return cmp("eq", v, const(int(val)), "u32")
        iv = int(val)
        return cmp("eq", v, const(iv), ty)

    # ------------------------------------------------------------ calls
    def event(self, kind, fn, args, cond, f, span, st, name="", gargs=(), self_ty="", raw=None, extra=None, argty=()):
        if not self.ev_on:
            return None
        e = Event()
        e.kind, e.fn, e.name, e.gargs, e.self_ty = kind, fn, name, list(gargs), self_ty
        e.args = [self.val(st, a) for a in args]
        e.raw = raw if raw is not None else list(args)
        e.cond = self.clean(cond)
        e.loops = tuple(self.loops)
        e.stack = f.stack if f else ()
        e.span = span
        e.idx = len(self.events)
        e.extra = extra
        e.argty = list(argty)
        e.res = None
        e.path = cond
        self.events.append(e)
        return e

    def clean(self, c):
        """drop 'the loop has a next element' atoms (inside the body they are true)"""
        m = {}
        for a in bsupport(c):
            if a.op == "is" and a.a[0].op == "iternext" and a.a[1] == "Some":
                it = a.a[0].a[0]
                m[a] = asb(it.a[2]) if it.op == "seq" else 1
        return bcompose(c, m) if m else c

    def call(self, f, b, t, cond, st):
        self.calls_seen += 1
        self.cur = (cond, f, t.get("sp"))
        args = [self.operand(st, f, a) for a in t["args"]]
        argty = [self.ty(f, x) for x in t["argty"]]
        if "fn" in t:
            fr = FnRef.of(t["fn"], f, self)
        else:
            v = self.operand(st, f, t["fop"])
            fr = v.a[0] if v.op == "fnitem" else None
            if fr is None:
                r = self.opaque_call("indirect", "indirect", [], "", [v] + args, [""] + argty, cond, f, t, st)
                if "t" not in t:
                    return []
                self.writep(st, f, t["d"], r)
                return [(t["t"], cond, st)]
        r, st, cond = self.dispatch(fr, args, argty, cond, f, (b,), t, st)
        if st is None or "t" not in t or cond == 0:
            return []
        self.cur = (cond, f, t.get("sp"))
        self.writep(st, f, t["d"], r)
        return [(t["t"], cond, st)]

    def dispatch(self, fr, args, argty, cond, f, site, t, st):
        """returns ret, state, cond"""
        sp = t.get("sp")
        nm = fr.name
        cn = fr.cname
        # diverging
        if cn in DIVERGE or (t.get("k") == "call" and "t" not in t and not fr.local):
            self.event("panic", cn, args, cond, f, sp, st, nm)
            return UNDEF, None, 0
        # closures
        if cn in ("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call"):
            cv = self.val(st, args[0])
            tup = args[1]
            av = list(tup.a) if tup.op == "tuple" else [mk("field", tup, "0")]
            return self.call_closure(cv, av, st, cond, f, site, t)
        # iterator protocol in loops
        if cn == "std::iter::Iterator::next":
            return self.iter_next(fr, args, argty, cond, f, site, t, st)
        h = BUILTIN.get(cn)
        if h is None and not fr.local and nm in BUILTIN_NAME and fr.is_lib:
            h = BUILTIN_NAME[nm]
        if h is not None and not fr.local:
            r = h(self, fr, args, argty, cond, f, site, t, st)
            if r is not NotImplemented:
                return r
        if fr.local and fr.key in self.p.bodies:
            body = self.p.bodies[fr.key]
            if not self.opaque(body) and f.stack.count(fr.key) < 1 and len(f.stack) < self.max_depth:
                gs = dict(zip(body.get("generics", []), fr.rargs))
                return self.call_body(body, args, st, cond, f, site, gs)
            if f.stack.count(fr.key) >= 1:
                self.notes.append("recursion at %s" % body["path"])
                mods = self.rec_mods(body, f)
                r = self.opaque_call(cn, nm, fr.args, fr.self_ty, args, argty, cond, f, t, st, site=site, mods=mods)
                return r, st, cond
        if not fr.local and (cn in TRANSPARENT or (nm in TRANSPARENT_NAMES and fr.is_lib)):
            v = args[0]
            if nm in ("clone", "to_owned", "cloned", "copied", "to_vec", "into_owned", "to_shared", "into_shared", "to_string"):
                v = self.val(st, v)
            elif cn == "std::boxed::Box::new" or cn == "std::sync::Mutex::new" or cn == "std::sync::Arc::new":
                pass
            self.event("call", cn, args, cond, f, sp, st, nm, fr.args, fr.self_ty, argty=argty) if nm in ("lock",) else None
            return v, st, cond
        r = self.opaque_call(cn, nm, fr.args, fr.self_ty, args, argty, cond, f, t, st, site=site)
        return r, st, cond

    def rec_mods(self, body, f):
        """paths of each argument a recursive function may change (least fixpoint over its own body)"""
        key = body["key"]
        cache = self.recmods
        if key in cache:
            return cache[key]
        cache[key] = {}
        before = set(cache)
        for _ in range(6):
            for k2 in set(cache) - before:
                del cache[k2]        # computed while this set was still growing
            E = Engine(self.p, budget=self.budget, opaque=self.opaque, max_depth=self.max_depth)
            E.recmods = cache
            E.run(body, gsub=f.subst)
            new = {}
            for i in range(body["argc"]):
                o = sym(body["locals"][i + 1][1] or "arg%d" % (i + 1))
                v = (E.final or {}).get(("O", o), o)
                acc = set()
                changed(v, o, (), acc)
                new[i] = acc | set(cache[key].get(i, ()))
            if new == cache[key]:
                break
            cache[key] = new
        else:
            cache[key] = {i: {()} for i in range(body["argc"])}
        return cache[key]

    def call_closure(self, cv, av, st, cond, f, site, t):
        if cv.op == "ref":
            cv = self.val(st, cv)
        if cv.op == "fnitem":
            fr = cv.a[0]
            return self.dispatch(fr, av, [""] * len(av), cond, f, site + ("fi",), t, st)
        if cv.op == "ctor":
            return adt(cv.a[0], cv.a[1], [(str(i), a) for i, a in enumerate(av)]), st, cond
        if cv.op == "closure" and cv.a[0] in self.p.bodies:
            body = self.p.bodies[cv.a[0]]
            if f.stack.count(cv.a[0]) >= 1:
                return mk("call", "recursive-closure", *av), st, cond
            env_ty = body["locals"][1][0]
            fk = self.frames.setdefault(("env", f.id, site, cv.a[0]), len(self.frames))
            root = ("L", fk, 1)
            st[root] = cv
            a0 = mk("ref", root, ()) if env_ty.startswith("&") else cv
            r = self.call_body(body, [a0] + av, st, cond, f, site + (cv.a[0],), f.subst)
            if r[1] is not None and root in r[1]:
                del r[1][root]
            return r
        if cv.op == "ite":
            # evaluate both alternatives
            c = cv.a[0]
            s1 = dict(st)
            r1, s1, c1 = self.call_closure(cv.a[1], av, s1, band(cond, c), f, site + ("t",), t)
            s2 = dict(st)
            r2, s2, c2 = self.call_closure(cv.a[2], av, s2, band(cond, bnot(c)), f, site + ("e",), t)
            ins = [(cc, ss) for cc, ss in ((c1, s1), (c2, s2)) if ss is not None and cc != 0]
            if not ins:
                return UNDEF, None, 0
            cc, ss = self.merge(ins)
            return ite(c, r1, r2), ss, cc
        self.event("call", "callback", [cv] + av, cond, f, t.get("sp"), st, "callback")
        return mk("call", "callback", self.val(st, cv), *[self.val(st, a) for a in av]), st, cond

    def iter_next(self, fr, args, argty, cond, f, site, t, st):
        it = args[0]
        v = self.val_shallow(st, it)
        h = f.cfg.innermost(site[0]) if len(site) == 1 else None
        inloop = h is not None
        if inloop and it.op == "ref" and it.a[0][0] == "L" and it.a[0][1] == f.id and it.a[0][2] in f.cfg.assigned_in[h]:
            inloop = False
        if inloop and self.ldrv.setdefault((f.id, h), site[0]) != site[0]:
            inloop = False          # a second iterator advanced by hand inside the loop
        vv = self.val(st, it)
        if inloop:
            lid = mk("loop", f.id, h)
            place = self.last_ref(st, it) if "IterMut" in (fr.self_ty or (fr.args[0] if fr.args else "")) and "hash" not in fr.self_ty and "btree" not in fr.self_ty else None
            if place is not None:
                vv = self.lsrc.setdefault(lid, vv)
            self.lsrc.setdefault(lid, vv)
            for i in range(len(self.loops) - 1, -1, -1):
                if self.loops[i] is mk("while", lid):
                    self.loops[i] = vv
                    break
            n = mk("iternext", vv)
            if place is not None and vv.op not in ("seq", "enumerate", "zip", "ite"):
                # the element is the place at the current position
                return ite(bvar(mk("is", n, "Some")), some(mk("ref", place.a[0], tuple(place.a[1]) + (("ix", pos(vv)),))), NONE), st, cond
            if vv.op == "seq" or vv.op in ("enumerate", "zip"):
                return ite(bvar(mk("is", n, "Some")), some(elem(vv)), NONE), st, cond
            return ite(bvar(mk("is", n, "Some")), some(elem(v if v.op != "ref" else vv)), NONE), st, cond
        if fr.local and fr.key in self.p.bodies and f.stack.count(fr.key) < 1:
            body = self.p.bodies[fr.key]
            gs = dict(zip(body.get("generics", []), fr.rargs))
            return self.call_body(body, args, st, cond, f, site, gs)
        r = self.opaque_call("std::iter::Iterator::next", "next", fr.args, fr.self_ty, args, argty, cond, f, t, st)
        return r, st, cond

    def last_ref(self, st, t):
        """the innermost reference of a chain of references (the place iterated over)"""
        r, n = None, 0
        while t.op == "ref" and n < 10:
            r = t
            t = self.read(st, t.a[0], t.a[1])
            n += 1
        return r if n > 1 else None

    def val_shallow(self, st, t):
        n = 0
        while t.op == "ref" and n < 10:
            t = self.read(st, t.a[0], t.a[1])
            n += 1
        return t

    def run_callbacks(self, args, argty, cond, f, site, t, st, params, loop=None, ev=None):
        """evaluate closures passed to an opaque function once with generic params; the closures' results are kept on the event"""
        for i, a in enumerate(args):
            v = a if a.op != "ref" else self.val(st, a)
            if v.op == "closure" and v.a[0] in self.p.bodies:
                body = self.p.bodies[v.a[0]]
                n = body["argc"] - 1
                if body["kind"] != "Closure":
                    continue
                ps = [params(i, j) for j in range(n)]
                r = self.in_loop(loop, lambda s: self.call_closure(v, ps, s, cond, f, site + ("cb", i), t), st)
                if ev is not None:
                    self.cbres[(ev.idx, i)] = self.val(st, r) if isinstance(r, T) else r
            elif v.op == "fnitem" and v.a[0].local and v.a[0].key in self.p.bodies:
                body = self.p.bodies[v.a[0].key]
                ps = [params(i, j) for j in range(body["argc"])]
                self.in_loop(loop, lambda s: self.call_closure(v, ps, s, cond, f, site + ("cb", i), t), st)

    def in_loop(self, src, fn, st, lid=None):
        """evaluate fn(state) as a loop body over src (with widening); merges effects into st, returns value"""
        if src is None:
            r, s, c = fn(dict(st))
            if s is not None:
                st.clear()
                st.update(s)
            return r
        lid = lid or mk("loop", src, len(self.loops))
        self.lsrc.setdefault(lid, src)
        head = dict(st)
        on = self.ev_on
        self.ev_on = False
        r = UNDEF
        try:
            for _ in range(5):
                self.loops.append(src)
                try:
                    r, s, c = fn(dict(head))
                finally:
                    self.loops.pop()
                if s is None:
                    break
                ch = False
                for k in set(s) | set(head):
                    if k[0] == "L" and k not in st:
                        continue
                    hv, bv = self.read_root(head, k), self.read_root(s, k)
                    if hv is bv:
                        continue
                    nv = self.widen(lid, k, (), hv, bv, self.read_root(st, k))
                    if nv is not hv:
                        head[k] = nv
                        ch = True
                if not ch:
                    for k in set(s):
                        if k[0] == "L" and k not in st:
                            continue
                        self.record_steps(lid, self.read_root(head, k), self.read_root(s, k), self.read_root(st, k))
                    break
        finally:
            self.ev_on = on
        if self.ev_on:
            self.loops.append(src)
            try:
                r, s, c = fn(dict(head))
            finally:
                self.loops.pop()
        st.clear()
        st.update(head)
        return r

    def opaque_call(self, cn, nm, gargs, self_ty, args, argty, cond, f, t, st, site=None, value_args=None, mods=None):
        vals = [self.val(st, a) for a in args]
        gargs = [x for x in gargs]
        src = vals[0] if vals else UNIT
        e = self.event("call", cn, args, cond, f, t.get("sp"), st, nm, gargs, self_ty, argty=argty)
        if e is not None and nm == "notify" and cn.startswith("actix"):
            # ctx.notify(m) sends m to the actor itself
            e.args = [mk("call", "actix::AsyncContext::address", vals[0])] + list(e.args[1:])
        res = mk("call", cn, *vals)
        # effects through &mut
        for i, (a, ty) in enumerate(zip(args, argty)):
            if ty.startswith("&mut ") or re.match(r"&'\w+ mut ", ty):
                if "Context<" in ty or "Formatter" in ty:
                    continue
                for c, r, k in self.deref_targets(a):
                    nv = mk("mut", cn, i, *vals)
                    if i == 1 and nm == "append" and len(vals) == 2:
                        # append moves everything out of its second list
                        nv = mk("mut", "std::vec::Vec::clear", 0, vals[1])
                    if mods is not None:
                        for pth in sorted(mods.get(i, ())):
                            kk = tuple(k) + pth
                            old = self.read(st, r, kk)
                            n2 = proj(nv, pth)
                            self.write(st, r, kk, n2 if c == 1 else ite(c, n2, old))
                        continue
                    old = self.read(st, r, k)
                    self.write(st, r, k, nv if c == 1 else ite(c, nv, old))
        if e is not None:
            e.res = res
        self.run_callbacks(args, argty, cond, f, site or (t.get("d", {}).get("l", 0), "op"), t, st, lambda i, j: mk("cparam", cn, src, j), loop=mk("callback", cn, src), ev=e)
        return res


class FnRef:
    """resolved callee, with the caller's generic substitution applied"""
    _c = {}

    @staticmethod
    def of(d, f, eng):
        sub = tuple(sorted(f.subst.items()))
        k = (id(d), sub, f.body["pre"])
        r = FnRef._c.get(k)
        if r is None:
            r = FnRef(d, f, eng)
            FnRef._c[k] = r
            FnRef._keep.append(d)
        return r
    _keep = []

    def __init__(self, d, f, eng):
        rs = d.get("resolved")
        self.path = d["path"]
        self.name = d.get("name", "")
        self.trait = d.get("trait")
        self.args = [eng.ty(f, a) for a in d["args"]]
        self.self_ty = eng.ty(f, d.get("self_ty", ""))
        self.cname = strip_generics(d["path"])
        pre = f.body["pre"]
        self.local = (rs or d)["local"]
        self.key = pre + (rs or d)["key"]
        if not self.local and (rs or d)["key"] in eng.p.bodies:
            # bin crate calling into the library
            self.local = True
            self.key = (rs or d)["key"]
        if rs is not None:
            self.rargs = [eng.ty(f, a) for a in rs.get("args", [])]
            if rs.get("shim") == "virtual":
                self.local = False
        else:
            self.rargs = self.args
            self.local = False if self.trait else self.local
        if not rs and self.trait:
            # generic trait call: after substitution try to find a local impl
            st_ = re.sub(r"^(&('\w+ )?(mut )?)+", "", self.args[0]) if self.args else ""
            smart = re.match(r"std::(sync::Arc|boxed::Box|rc::Rc)<(.*)>$", st_)
            for cand in ([st_, smart.group(2)] if smart else [st_]):
                b = eng.p.tmethod(cand, self.name, self.trait)
                if b is None and (d["key"] in eng.p.bodies) and eng.p.bodies[d["key"]].get("trait_default") and any(i.get("trait") and strip_generics(i["trait"]) == strip_generics(self.trait) and strip_generics(i["self_ty"]) == strip_generics(cand) for i in eng.p.impls):
                    b = eng.p.bodies[d["key"]]
                    self.rargs = [cand] + list(self.args[1:])
                if b is not None:
                    self.local = True
                    self.key = b["key"]
                    if not b.get("trait_default"):
                        self.rargs = []
                    break
        self.is_lib = not self.local

    def __repr__(self):
        return "fn:" + self.cname


from builtins_ import BUILTIN, BUILTIN_NAME  # noqa: E402
