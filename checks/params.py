"""P24 every option a user sets reaches the parameter it names: command line, library, Python."""
import ast
from start import *

# field: (long option, short option, default, takes a value)
OPTIONS = {
    "local_host": ("local-host", "l", "127.0.0.1:8000", True),
    "pattern_length": ("pattern-length", "p", "50", True),
    "latent": ("latent", None, "16", True),
    "rate": ("rate", None, "100", True),
    "n_threads": ("threads", "t", "8", True),
    "n_cluster_nodes": ("cluster-nodes", "n", "1", True),
    "query_length": ("query-length", "q", "75", True),
    "score_output_path": ("score-output-path", None, None, True),
    "column_start": ("column-start-idx", None, "0", True),
    "column_end": ("column-end-idx", None, "0", True),
    "clustering": ("clustering", None, "kde", True),
    "explainability": ("explainability", None, None, False),
    "anomaly_contribution_output_path": ("anomaly-contribution-output-path", None, "anomaly-contribution.csv", True),
    "self_correction": ("self-correction", None, None, False),
}
SUBS = {"main": ("Main.data_path", "data-path", "d"), "sub": ("Sub.mainhost", "mainhost", "h")}


def text(t):
    if t.op == "const" or t.op == "str":
        return str(t.a[0]).strip('"').strip("'")
    return show(t, 3).strip("'").strip('"')


def arg_of(t):
    """{builder method: argument} of a clap argument, '' its id"""
    d = {}
    while t.op == "call" and len(t.a) > 1:
        n = nm(t)
        if n in ("with_name", "new"):
            d[""] = text(t.a[1])
            return d
        d.setdefault(n, t.a[2] if len(t.a) > 2 else None)
        t = t.a[1]
    return None


def reads(t):
    """ids of the options a value is read from"""
    return {text(x.a[2]) for x in subterms(t) if x.op == "call" and nm(x) in ("value_of", "is_present", "values_of", "occurrences_of", "value_of_os", "value_of_lossy") and len(x.a) > 2}


def command_line(c):
    fc = [b for b in c.p.bodies.values() if b.get("name") == "from_clap" and base(b.get("self_ty") or "") == "Parameters" and b["kind"] != "Closure"]
    au = [b for b in c.p.bodies.values() if b.get("name") == "augment_clap" and base(b.get("self_ty") or "") == "Parameters" and b["kind"] != "Closure"]
    if not (c.need(fc, "Parameters::from_clap") and c.need(au, "Parameters::augment_clap")):
        return
    A = c.run(au[0], None, "p24")
    args, subs = {}, {}
    for e in A.events:
        if e.kind == "call" and e.name == "arg" and len(e.args) > 1:
            d = arg_of(e.args[1])
            own = root_name(e.args[0])
            if d:
                c.ob("option", "one definition of %s" % d[""], (own, d[""]) not in args, "%s defined twice" % d[""], where_of(e))
                args[(own, d[""])] = (d, e)
        if e.kind == "call" and e.name == "subcommand" and len(e.args) > 1:
            n = root_name(e.args[1])
            subs[n] = e
    F = c.run(fc[0], None, "p24")
    r = F.ret
    if not c.need(r.op == "adt", "Parameters built from the command line"):
        return
    longs = {}
    for f, v in r.a[2]:
        if f == "role":
            continue
        if f not in OPTIONS:
            continue
        lo, sh, df, val = OPTIONS[f]
        ids = reads(v)
        if f == "clustering" and not ids:
            # only one clustering exists, the text was checked on the way
            ids = {f} if (None, "clustering") in args else set()
        if not c.ob("option", f + " read", len(ids) == 1, "%s is read from the options %s" % (f, sorted(ids))):
            continue
        i = next(iter(ids))
        if not c.ob("option", f + " defined", (None, i) in args, "%s is read from %s, which is no option" % (f, i)):
            continue
        d, e = args[(None, i)]
        got = text(d["long"]) if d.get("long") is not None else None
        c.ob("option", f + " name", got == lo, "%s must be set by --%s, not --%s" % (f, lo, got), where_of(e))
        c.ob("option", "--%s once" % got, got not in longs, "--%s sets both %s and %s" % (got, f, longs.get(got)), where_of(e))
        longs[got] = f
        if sh:
            c.ob("option", f + " short name", d.get("short") is not None and text(d["short"])[:1] == sh, "%s must be set by -%s too" % (f, sh), where_of(e))
        c.ob("option", f + " default", (text(d["default_value"]) if d.get("default_value") is not None else None) == df, "default of --%s must be %s, not %s" % (lo, df, show(d.get("default_value"), 3) if d.get("default_value") is not None else None), where_of(e))
        if d.get("takes_value") is not None:
            c.ob("option", f + " value", (asb(d["takes_value"]) == 1) == val, "--%s must %stake a value" % (lo, "" if val else "not "), where_of(e))
        for cnd, x in leaves(v):
            raw = [y for y in subterms(x) if y.op == "call" and nm(y) not in ("value_of", "is_present", "from_str", "parse", "occurrences_of", "matches") and reads(y)]
            c.ob("option", f + " unchanged", not raw and (x.op not in ("add", "mul", "lin", "sub")), "%s must be what was given: %s" % (f, show(v, 5)[:200]))
        if not val:
            c.ob("option", f + " flag", asb(v) not in (0, 1) and v.op in ("call", "bool"), "%s must be set exactly if --%s is given: %s" % (f, lo, show(v, 4)))
    for f in OPTIONS:
        c.ob("option", f + " exists", f in dict(r.a[2]), "parameter %s is gone" % f)
    role = dict(r.a[2]).get("role")
    if c.need(role is not None, "role"):
        for s, (fld, lo, sh) in SUBS.items():
            c.ob("role", s + " exists", s in subs, "subcommand %s is gone" % s)
            var = fld.split(".")[0]
            alts = [(cnd, x) for cnd, x in leaves(role) if x.op == "adt" and x.a[1] == var]
            c.ob("role", s + " gives " + var, bool(alts), "subcommand %s must give the role %s" % (s, var))
            for cnd, x in alts:
                ids = reads(proj(x, (fld,))) or reads(x)
                ok = len(ids) == 1 and (s, next(iter(ids))) in args
                c.ob("role", "%s reads its option" % s, ok, "%s must be read from an option of %s: %s" % (fld, s, sorted(ids)))
                if ok:
                    d, e = args[(s, next(iter(ids)))]
                    c.ob("role", s + " option name", text(d.get("long")) == lo and (d.get("short") is not None and text(d["short"])[:1] == sh), "%s must be given by --%s or -%s" % (fld, lo, sh), where_of(e))
                other = [o for o in SUBS if o != s]
                at = [(a, t_) for a in bsupport(cnd) for t_ in [a] if a.op == "eq" and any(text(y) in SUBS for y in a.a if isinstance(y, T))]
                for a, _ in at:
                    w = next(text(y) for y in a.a if isinstance(y, T) and text(y) in SUBS)
                    pos = bimp(cnd, bvar(a))
                    neg = bimp(cnd, bnot(bvar(a)))
                    c.ob("role", "%s chosen by its name" % s, not (pos and w != s) and not (neg and w == s), "the role %s must be chosen by the subcommand %s" % (var, s))


def root_name(app):
    """name of the command a chain of builder calls starts from; None for the command given from outside"""
    t = app
    while t.op == "call" and len(t.a) > 1 and isinstance(t.a[1], T):
        if nm(t) == "with_name":
            return text(t.a[1])
        t = t.a[1]
    return None


DEF = {"pattern_length": 50, "latent": 16, "rate": 100, "n_threads": 1, "n_cluster_nodes": 1, "query_length": 75, "column_start": 0, "column_end": 0}


def defaults(c):
    b = [b for b in c.p.bodies.values() if b.get("name") == "default" and base(b.get("self_ty") or "") == "Parameters" and b["kind"] != "Closure"]
    if not c.need(b, "Parameters::default"):
        return
    r = c.run(b[0], None, "p24").ret
    for f, d in DEF.items():
        v = proj(r, (f,))
        c.ob("default", f, v is const(d), "default of %s must be %s, not %s" % (f, d, show(v, 3)))
    for f in ("explainability", "self_correction"):
        c.ob("default", f, asb(proj(r, (f,))) == 0, "%s must be off unless asked for" % f)
    v = proj(r, ("score_output_path",))
    c.ob("default", "score_output_path", v.op == "adt" and v.a[1] == "None", "no output file unless asked for")
    v = proj(r, ("role",))
    c.ob("default", "role", v.op == "adt" and v.a[1] == "Main", "the default role must be main")


def binary(c):
    b = [b for b in c.p.bodies.values() if b["path"] == "main" and b["kind"] == "Fn" and "promoted" not in b["key"]]
    if not c.need(b, "main"):
        return
    E = c.run(b[0], lambda x: x.get("name") in ("s2gpp", "from_clap", "from_args"), "p24")
    cs = [e for e in E.events if e.kind == "call" and e.name == "s2gpp" and e.fn.endswith("s2gpp")]
    if not c.need(cs, "call of s2gpp in main"):
        return
    c.ob("program", "runs once", len(cs) == 1 and not cs[0].loops, "the program must run once", where_of(cs[0]))
    P = cs[0].args[0]
    c.ob("program", "parameters", (P.op == "call" and nm(P) in ("from_args", "from_clap")), "the program must run with the parameters of the command line: %s" % show(P, 4)[:200], where_of(cs[0]))
    d = cs[0].args[1]
    c.ob("program", "from file", d.op == "adt" and d.a[1] == "None", "the program reads its data from the file", where_of(cs[0]))
    ex = asb(proj(P, ("explainability",)))
    n = proj(P, ("n_cluster_nodes",))
    np = bnot(bor(0, *[e.cond for e in E.events if e.kind == "panic" and not any(a.op == "is" and a.a[0].op == "call" and nm(a.a[0]) == "s2gpp" for a in bsupport(e.cond))]))
    for k in range(1, 5):
        for x in (0, 1):
            v = asb(subst(boolt(band(cs[0].cond, np)), {n: const(k), proj(P, ("explainability",)): TRUE if x else FALSE}))
            v = brestrict(v, ex if x else bnot(ex))
            c.ob("program", "nodes=%d explainability=%d" % (k, x), v == (0 if x and k > 1 else 1), "contributions are not available in a cluster, everything else must run: %s" % showb(v)[:150], where_of(cs[0]))
    un = [e for e in E.events if e.kind == "unwrap" and e.args and e.args[0] is mk("call", cs[0].fn, *cs[0].args)]
    ig = [e for e in E.events if e.kind == "call" and e is not cs[0] and cs[0].fn != e.fn and any(a is mk("call", cs[0].fn, *cs[0].args) for a in e.args)]
    res = mk("call", cs[0].fn, *cs[0].args)
    un += [e for e in E.events if (e.kind == "panic" or (e.kind == "call" and e.name in ("exit", "abort"))) and any(a.op == "is" and a.a[0] is res for a in bsupport(e.cond))]
    c.ob("program", "failure reported", bool(un) or bool(ig) or E.ret is mk("call", cs[0].fn, *cs[0].args), "a failed run must not end like a successful one", where_of(cs[0]))


# ------------------------------------------------------------------ Python
PYFNS = {
    "s2gpp_local_array": {"n_cluster_nodes": 1, "role": "Main"},
    "s2gpp_local_file": {"n_cluster_nodes": 1, "role": "Main"},
    "s2gpp_distributed_main": {"role": "Main"},
    "s2gpp_distributed_sub": {"role": "Sub"},
}
PYFIELDS = ("pattern_length", "latent", "query_length", "rate", "n_threads", "self_correction", "score_output_path", "column_start", "column_end", "n_cluster_nodes")


def parsed(v, s):
    """v is the text s, parsed"""
    r, path = flat_place(v, ())
    return path == ("Ok.0",) and r.op == "call" and nm(r) in ("parse", "from_str") and r.a[1] is s


def python(c):
    """{function: [parameter names]} of the extension module"""
    import build as B
    import os
    d = B.dump("python", [])[0]
    p = Program([os.path.join(d, "s2gpp-lib.json")])
    sub_ = Ctx(c.pid, p, c.tier)
    sigs = {}
    for f, fix in PYFNS.items():
        b = [b for b in p.bodies.values() if b["path"] == "python_binding::" + f and b["kind"] == "Fn" and "promoted" not in b["key"]]
        if not c.need(b, "python_binding::" + f):
            continue
        b = b[0]
        E = sub_.run(b, lambda x: x.get("name") == "s2gpp" and x["path"] == "s2gpp", "p24")
        c.analysed["entries"].add(b["path"])
        calls = [e for e in E.events if e.kind == "call" and e.name == "s2gpp" and "python_binding" not in e.fn]
        if not c.ob("python", f + " runs once", len(calls) == 1 and (not calls[0].loops or all(l.op == "callback" or "callback" in show(l, 2) for l in calls[0].loops)), "%s must run the algorithm once" % f):
            continue
        e = calls[0]
        P = e.args[0]
        names = [a for a in arg_names(b)]
        sigs[f] = names
        for fld in PYFIELDS:
            v = rs(proj(P, (fld,)), e.cond)
            if fld in names:
                c.ob("python", "%s: %s" % (f, fld), v is sym(fld), "%s must pass %s on as given, not %s" % (f, fld, show(v, 4)[:150]), where_of(e))
            elif fld in fix:
                c.ob("python", "%s: %s" % (f, fld), v is const(fix[fld]), "%s must use %s = %s" % (f, fld, fix[fld]), where_of(e))
        role = rs(proj(P, ("role",)), e.cond)
        c.ob("python", f + ": role", role.op == "adt" and role.a[1] == fix["role"], "%s must run as %s: %s" % (f, fix["role"], show(role, 4)[:150]), where_of(e))
        if "data_path" in names:
            dp = proj(role, ("Main.data_path",))
            c.ob("python", f + ": data_path", dp.op == "adt" and dp.a[1] == "Some" and proj(dp, ("Some.0",)) is sym("data_path"), "%s must read the given file: %s" % (f, show(dp, 4)[:150]), where_of(e))
        if "mainhost" in names:
            c.ob("python", f + ": mainhost", parsed(proj(role, ("Sub.mainhost",)), sym("mainhost")), "%s must join the given main node: %s" % (f, show(role, 5)[:150]), where_of(e))
        if "local_host" in names:
            c.ob("python", f + ": local_host", parsed(rs(proj(P, ("local_host",)), e.cond), sym("local_host")), "%s must listen at the given address" % f, where_of(e))
        data = e.args[1]
        if "data" in names:
            x = proj(data, ("Some.0",)) if data.op == "adt" and data.a[1] == "Some" else None
            ok = x is not None and contains(x, lambda y: y is sym("data")) and all(nm(y) in ("as_array", "to_owned", "clone", "view", "into_owned", "to_owned_array") for y in subterms(x) if y.op == "call")
            c.ob("python", f + ": data", ok, "%s must use the given data as it is: %s" % (f, show(data, 5)[:150]), where_of(e))
            res = mk("call", e.fn, *e.args)
            okl = [v for _, v in leaves(E.ret) if v.op == "adt" and v.a[1] == "Ok"]
            good = bool(okl) and all(contains(v, lambda y: y is proj(res, ("Ok.0", "Some.0"))) and all(nm(y) in ("into_pyarray", "to_pyarray", "from_owned_array", "from_array") or contains(mk("tuple", res), lambda z: z is y) for y in subterms(v) if y.op == "call") for v in okl)
            c.ob("python", f + ": scores", good, "%s must return the scores: %s" % (f, show(E.ret, 5)[:200]), where_of(e))
        else:
            c.ob("python", f + ": from file", data.op == "adt" and data.a[1] == "None", "%s must read its data from the file" % f, where_of(e))
    wrapper(c, sigs)


def arg_names(b):
    """names of a function's arguments, from its debug info"""
    return [l[1] for l in b["locals"][1:b["argc"] + 1]]


# attribute of the Python classes for each argument of the extension functions
ATTR = {"score_output_path": {"output_path"}, "data_path": {"X"}, "data": {"X"}}
CTOR = {"column_start": "column_start_idx", "column_end": "column_end_idx"}


def wrapper(c, sigs):
    """s2gpp/__init__.py: arguments of the constructors reach the extension functions"""
    import build as B
    import os
    f = os.path.join(B.REPO, "s2gpp", "__init__.py")
    if not c.need(os.path.exists(f), "s2gpp/__init__.py"):
        return
    tree = ast.parse(open(f).read())
    classes = {n.name: n for n in tree.body if isinstance(n, ast.ClassDef)}
    attrs = {}
    for cl in classes.values():
        init = next((m for m in cl.body if isinstance(m, ast.FunctionDef) and m.name == "__init__"), None)
        if init is None:
            continue
        params = {a.arg for a in init.args.args + init.args.kwonlyargs} - {"self"}
        env = local_env(init)
        for st in ast.walk(init):
            tg = st.targets[0] if isinstance(st, ast.Assign) and len(st.targets) == 1 else st.target if isinstance(st, ast.AnnAssign) and st.value is not None else None
            if tg is not None and isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == "self":
                attrs[tg.attr] = (alternatives(st.value, env), params, st, cl.name)
    for a, (alts, params, st, cn) in attrs.items():
        want = {a} & params or {CTOR.get(a, a)} & params
        if not want:
            continue
        w = next(iter(want))
        direct = [x for x in alts if isinstance(x, ast.Name)]
        c.ob("python", "attribute " + a, any(x.id == w for x in direct) and all(x.id == w for x in direct if x.id in params), "%s.%s must be the given %s" % (cn, a, w), "s2gpp/__init__.py:%d" % st.lineno)
    if "n_threads" in attrs:
        alts, params, st, cn = attrs["n_threads"]
        init = next(m for m in classes[cn].body if isinstance(m, ast.FunctionDef) and m.name == "__init__")
        bad = None
        for cpus in range(1, 9):
            for given in (-1, 0, 1, 2, 5):
                v = pyval(st.value, {"n_threads": given, "cpu_count()": cpus}, {k: x[0] for k, x in local_env(init).items() if len(x) == 1 and k not in params})
                if v is None:
                    continue
                if (given > 0 and v != given) or v < 1:
                    bad = bad or "with %d processors and n_threads=%d it becomes %s" % (cpus, given, v)
        c.ob("python", "number of threads", bad is None, "a given number of threads must be used, and at least one thread otherwise; %s" % bad, "s2gpp/__init__.py:%d" % st.lineno)
    for cl in classes.values():
        for m in cl.body:
            if not isinstance(m, ast.FunctionDef):
                continue
            env = local_env(m)
            for call in ast.walk(m):
                if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Name) and call.func.id in sigs):
                    continue
                names = [n for n in sigs[call.func.id] if n not in ("py", "_py")]
                got = {}
                star = any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords)
                if not star:
                    got.update(zip(names, call.args))
                    got.update({k.arg: k.value for k in call.keywords})
                    c.ob("python", "%s gets all arguments" % call.func.id, set(got) == set(names) and len(call.args) + len(call.keywords) == len(names), "%s must be called with %s" % (call.func.id, names), "s2gpp/__init__.py:%d" % call.lineno)
                for n, ex in got.items():
                    used = names_in(ex, env)
                    known = {u for u in used if u in attrs or u in ("X",)}
                    if known:
                        c.ob("python", "%s(%s)" % (call.func.id, n), known <= ({n} | ATTR.get(n, set())), "%s of %s gets %s" % (n, call.func.id, sorted(known)), "s2gpp/__init__.py:%d" % call.lineno)


def pyval(x, env, loc, d=0):
    """value of an expression over the given names by constant folding; None if it uses anything else"""
    if d > 12:
        return None
    go = lambda y: pyval(y, env, loc, d + 1)
    if isinstance(x, ast.Constant) and isinstance(x.value, (int, float, bool)):
        return x.value
    if isinstance(x, ast.Name):
        return env[x.id] if x.id in env else go(loc[x.id]) if x.id in loc else None
    if isinstance(x, ast.Call):
        f = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
        if f == "cpu_count" and not x.args:
            return env["cpu_count()"]
        vs = [go(y) for y in x.args]
        if None in vs or x.keywords or not vs:
            return None
        return {"max": max, "min": min}[f](vs) if f in ("max", "min") and len(vs) > 1 else int(vs[0]) if f == "int" else None
    if isinstance(x, ast.IfExp):
        t = go(x.test)
        return None if t is None else go(x.body if t else x.orelse)
    if isinstance(x, ast.BoolOp):
        v = None
        for y in x.values:
            v = go(y)
            if v is None or bool(v) == isinstance(x.op, ast.Or):
                return v
        return v
    if isinstance(x, ast.UnaryOp):
        v = go(x.operand)
        return None if v is None else -v if isinstance(x.op, ast.USub) else (not v) if isinstance(x.op, ast.Not) else None
    if isinstance(x, ast.BinOp):
        a, b = go(x.left), go(x.right)
        if a is None or b is None:
            return None
        o = type(x.op)
        return a + b if o is ast.Add else a - b if o is ast.Sub else a * b if o is ast.Mult else a // b if o is ast.FloorDiv and b else None
    if isinstance(x, ast.Compare) and len(x.ops) == 1:
        a, b = go(x.left), go(x.comparators[0])
        if a is None or b is None:
            return None
        return {ast.Gt: a > b, ast.GtE: a >= b, ast.Lt: a < b, ast.LtE: a <= b, ast.Eq: a == b, ast.NotEq: a != b}.get(type(x.ops[0]))
    return None


def local_env(fn):
    env = {}
    for st in ast.walk(fn):
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            env.setdefault(st.targets[0].id, []).append(st.value)
    return env


def alternatives(ex, env, d=0):
    """values an expression may take: branches of `or` and of conditional expressions"""
    if isinstance(ex, ast.BoolOp) and isinstance(ex.op, ast.Or):
        return [y for x in ex.values for y in alternatives(x, env, d)]
    if isinstance(ex, ast.IfExp):
        return alternatives(ex.body, env, d) + alternatives(ex.orelse, env, d)
    if isinstance(ex, ast.Name) and ex.id in env and d < 4:
        return [ex] + [y for x in env[ex.id] for y in alternatives(x, env, d + 1)]
    return [ex]


def names_in(ex, env, d=0):
    """attributes of self and arguments an expression uses"""
    out = set()
    for x in ast.walk(ex):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
            out.add(x.attr)
        elif isinstance(x, ast.Name):
            out.add(x.id)
            if d < 4:
                for v in env.get(x.id, ()):
                    out |= names_in(v, env, d + 1)
    return out


def p24(c):
    command_line(c)
    defaults(c)
    binary(c)
    python(c)
