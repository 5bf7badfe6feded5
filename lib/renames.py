"""Names are not behaviour: types, fields and functions that only got another name are read under the one known here.
lib/schema.json lists the known names; a name of it that is gone and a new one of the same shape in the same place are taken
for the same thing. (Taking the wrong one only changes which construct an obligation is asked of, not what is asked.)"""
import json
import os
import re

SCHEMA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema.json")


def fnentry(b):
    if b.get("kind") not in ("Fn", "AssocFn") or not b.get("name") or "promoted[" in b["key"] or b.get("derived"):
        return None
    return {"path": b["path"], "sig": [l[0] for l in b["locals"][:b["argc"] + 1]]}


def schema(d):
    return {"adts": {a["path"]: {"enum": a["enum"], "vars": a["vars"]} for a in d["adts"]},
            "fns": {e["path"]: e["sig"] for e in map(fnentry, d["bodies"]) if e}}


def parent(p):
    """path without its last segment"""
    m = re.match(r"^(.*)::(\w+)$", p)
    return (m.group(1), m.group(2)) if m else ("", p)


def pairs(old, new, alike):
    """unique partners; several alike are paired in order"""
    out = {}
    groups = {}
    for o in old:
        groups.setdefault(alike(o), ([], []))[0].append(o)
    for n in new:
        groups.setdefault(alike(n), ([], []))[1].append(n)
    for k, (a, b) in groups.items():
        if len(a) == len(b):
            out.update(zip(b, a))
    return out


def types(base, cur):
    gone = [p for p in base if p not in cur]
    came = [p for p in cur if p not in base]
    ren = {}

    def shape(a, p):
        nm = parent(p)[1]
        return json.dumps([a["enum"], [[None if v["name"] == nm else v["name"], v["fields"]] for v in a["vars"]]]).replace(p, "Self")

    for o in gone:
        c = [n for n in came if n not in ren and shape(cur[n], n) == shape(base[o], o)]
        here = [n for n in c if parent(n)[0] == parent(o)[0]] or [n for n in c if parent(n)[1] == parent(o)[1]]
        if len(here) == 1:
            ren[here[0]] = o
    # a type in a place where only one went and one came
    for o in gone:
        if o in ren.values():
            continue
        p = parent(o)[0]
        g = [x for x in gone if x not in ren.values() and parent(x)[0] == p and base[x]["enum"] == base[o]["enum"]]
        n = [x for x in came if x not in ren and parent(x)[0] == p and cur[x]["enum"] == base[o]["enum"]]
        if len(g) == 1 and len(n) == 1 and len(base[o]["vars"]) == len(cur[n[0]]["vars"]) and all(len(x["fields"]) == len(y["fields"]) for x, y in zip(base[o]["vars"], cur[n[0]]["vars"])):
            ren[n[0]] = o
    return ren


def fields(base, cur):
    """{type: {new field: old field}}"""
    fr = {}
    for p, a in base.items():
        b = cur.get(p)
        if b is None or a["enum"] != b["enum"]:
            continue
        va = {v["name"]: v["fields"] for v in a["vars"]}
        for v in b["vars"]:
            old = va.get(v["name"])
            if old is None and not a["enum"]:
                old = a["vars"][0]["fields"]
            if old is None:
                continue
            onames, nnames = [f[0] for f in old], [f[0] for f in v["fields"]]
            gone = [f for f in old if f[0] not in nnames]
            came = [f for f in v["fields"] if f[0] not in onames]
            if not gone or not came:
                continue
            m = pairs([tuple(f) for f in gone], [tuple(f) for f in came], lambda f: f[1])
            if not m and len(gone) == len(came) == 1 and len(onames) == len(nnames) and onames.index(gone[0][0]) == nnames.index(came[0][0]):
                m = {tuple(came[0]): tuple(gone[0])}
            for x, y in m.items():
                fr.setdefault(p, {})[x[0]] = y[0]
    return fr


def functions(base, cur):
    """{new path: old path}"""
    gone = [p for p in base if p not in cur]
    came = [p for p in cur if p not in base]
    ren = {}
    by = {}
    for p in gone:
        by.setdefault(parent(p)[0], ([], []))[0].append(p)
    for p in came:
        by.setdefault(parent(p)[0], ([], []))[1].append(p)
    for k, (a, b) in by.items():
        if not a or not b:
            continue
        sig = lambda p: json.dumps(base[p] if p in base else cur[p])
        for n, o in pairs(a, b, sig).items():
            ren[n] = o
    return ren


def rewrite(x, f):
    memo = {}

    def s(t):
        r = memo.get(t)
        if r is None:
            r = memo[t] = f(t)
        return r

    def go(x):
        if isinstance(x, str):
            return s(x)
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {k: go(v) for k, v in x.items()}
        return x
    return go(x)


def subst_re(m, tail=r"(?!\w)"):
    if not m:
        return lambda t: t
    rx = re.compile(r"(?<![\w:])(" + "|".join(re.escape(k) for k in sorted(m, key=len, reverse=True)) + ")" + tail)
    return lambda t: rx.sub(lambda q: m[q.group(1)], t)


def apply(dumps):
    """dumps: parsed JSON of the crates (library first); returns the list of renames read"""
    if not os.path.exists(SCHEMA):
        return dumps, []
    base = json.load(open(SCHEMA))
    lib = [d for d in dumps if d["kind"] == "lib"]
    if not lib:
        return dumps, []
    notes = []
    cur = schema(lib[0])
    tr = types(base["adts"], cur["adts"])
    if tr:
        notes += ["type %s read as %s" % (n, o) for n, o in tr.items()]
        m = dict(tr)
        m.update({"s2gpp::" + n: "s2gpp::" + o for n, o in tr.items()})
        f = subst_re(m)
        dumps = [rewrite(d, f) for d in dumps]
        last = {o: (parent(n)[1], parent(o)[1]) for n, o in tr.items()}
        for d in dumps:
            for a in d["adts"]:
                if a["path"] in last and not a["enum"]:
                    a["vars"][0]["name"] = last[a["path"]][1]

            def var(x):
                if isinstance(x, dict):
                    if x.get("ak") == "adt" and x.get("adt") in last and not x.get("enum"):
                        x["var"] = last[x["adt"]][1]
                    for v in x.values():
                        var(v)
                elif isinstance(x, list):
                    for v in x:
                        var(v)
            var(d["bodies"])
        lib = [d for d in dumps if d["kind"] == "lib"]
        cur = schema(lib[0])
    fr = fields(base["adts"], cur["adts"])
    if fr:
        notes += ["field %s of %s read as %s" % (n, p, o) for p, m in fr.items() for n, o in m.items()]

        def go(x):
            if isinstance(x, dict):
                if "f" in x and x.get("o") in fr:
                    x["f"] = fr[x["o"]].get(x["f"], x["f"])
                if x.get("ak") == "adt" and x.get("adt") in fr:
                    x["fn"] = [fr[x["adt"]].get(y, y) for y in x["fn"]]
                for v in x.values():
                    go(v)
            elif isinstance(x, list):
                for v in x:
                    go(v)
        for d in dumps:
            go(d["bodies"])
            for a in d["adts"]:
                for v in a["vars"]:
                    for q in v["fields"]:
                        q[0] = fr.get(a["path"], {}).get(q[0], q[0])
        cur = schema(lib[0])
    fn = functions(base["fns"], cur["fns"])
    if fn:
        notes += ["function %s read as %s" % (n, o) for n, o in fn.items()]
        m, names = {}, {}
        for d in dumps:
            for b in d["bodies"]:
                if b.get("path") in fn and b.get("name"):
                    o = parent(fn[b["path"]])[1]
                    k = parent(b["key"])
                    m[b["path"]] = fn[b["path"]]
                    m[b["key"]] = k[0] + "::" + o
                    if b.get("trait"):
                        m[re.sub(r"<.*>$", "", b["trait"]) + "::" + k[1]] = re.sub(r"<.*>$", "", b["trait"]) + "::" + o
                        m["s2gpp::" + re.sub(r"<.*>$", "", b["trait"]) + "::" + k[1]] = "s2gpp::" + re.sub(r"<.*>$", "", b["trait"]) + "::" + o
        f = subst_re(m)
        dumps = [rewrite(d, f) for d in dumps]

        def nm(x):
            if isinstance(x, dict):
                if isinstance(x.get("name"), str) and isinstance(x.get("path"), str):
                    l = parent(x["path"])
                    if l[1] in olds and x["name"] in news and x["name"] != l[1]:
                        x["name"] = l[1]
                for v in x.values():
                    nm(v)
            elif isinstance(x, list):
                for v in x:
                    nm(v)
        olds, news = {parent(o)[1] for o in fn.values()}, {parent(n)[1] for n in fn}
        for d in dumps:
            nm(d["bodies"])
            nm(d["impls"])
    return dumps, notes
