"""Check context: obligations, violations, known findings, evidence."""
import json
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402
from engine import *  # noqa: E402,F401,F403
from terms import *  # noqa: E402,F401,F403
import engine as _engine  # noqa: E402

VERIF = build.VERIF
EVID = os.environ.get("S2GPP_EVID") or os.path.join(VERIF, "evidence")


class Ctx:
    def __init__(self, pid, prog, tier="quick"):
        self.pid = pid
        self.p = prog
        self.tier = tier
        self.viol = []          # (key, message, where)
        self.obl = []           # (rule, instance, ok)
        self.analysed = {"entries": set(), "functions": set(), "call_sites": 0}
        self.assume = []
        self._runs = {}

    # ------------------------------------------------ reporting
    def ob(self, rule, inst, ok, msg="", where=None):
        """one proof obligation: rule applied to an instance"""
        self.obl.append((rule, inst, bool(ok)))
        if not ok:
            self.violation("%s/%s" % (rule, inst), msg or "rule %s does not hold for %s" % (rule, inst), where)
        return ok

    def violation(self, key, msg, where=None):
        if not any(k == key for k, _, _ in self.viol):
            self.viol.append((key, msg, where))

    def need(self, x, what):
        """anchor that must exist (fail closed)"""
        self.ob("anchor", what, x is not None and x != [] and x is not False, "anchor missing: " + what)
        return x

    def floor(self, what, n, minimum):
        self.ob("floor", what, n >= minimum, "%s: only %d found, expected at least %d" % (what, n, minimum))

    # ------------------------------------------------ running the engine
    def run(self, body, opaque=None, okey=None, args=None, budget=400000, **kw):
        k = (body["key"], okey, None if args is None else tuple(args))
        if k in self._runs and (opaque is None or okey is not None):
            return self._runs[k]
        E = Engine(self.p, budget=budget, opaque=opaque)
        E.run(body, args=args, **kw)
        self.analysed["entries"].add(body["path"])
        for v in E.visited:
            self.analysed["functions"].add(v)
        self.analysed["call_sites"] += E.calls_seen
        self._runs[k] = E
        return E


def where_of(e):
    if e is None or not e.span:
        return None
    return "%s:%s" % (e.span[0], e.span[1])


def load_known():
    f = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(f):
        return json.load(open(f))
    return {"findings": [], "fixed": []}


def main(pid, fn, level, technique, tier, trusted):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    log = []
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = os.path.join(EVID, "%s-violation.json" % pid)
    try:
        if os.path.exists(replay):
            os.remove(replay)
    except OSError:
        pass
    try:
        d, bt = build.dump("", log)
        prog = Program([os.path.join(d, "s2gpp-lib.json"), os.path.join(d, "s2gpp-bin.json")])
        ctx = Ctx(pid, prog, tier)
        fn(ctx)
    except Exception as ex:
        # fail closed with a diagnosable report, never with an undefined exit
        ctx = locals().get("ctx") or Ctx(pid, None, tier)
        ctx.obl.append(("analysis", "completed", False))
        ctx.viol.append(("analysis-error", "analysis did not complete: %s: %s" % (type(ex).__name__, str(ex)[-2500:]), traceback.format_exc(limit=-5)))
    known = load_known()
    kset = {(k["property"], k["key"]): k for k in known.get("findings", [])}
    new = []
    for key, msg, where in ctx.viol:
        kf = kset.get((pid, key))
        if kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kf["what"], key))
        else:
            new.append((key, msg, where))
    rules = {}
    for r, i, okk in ctx.obl:
        a = rules.setdefault(r, [0, 0])
        a[0] += 1
        a[1] += 1 if okk else 0
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "obligations": len(ctx.obl),
            "discharged": sum(1 for _, _, o in ctx.obl if o),
            "checker_cmd": "python3 /verif/check.py %s --tier %s" % (pid, tier),
            "trusted_base": trusted,
            "explanation": "%s. Entry functions analysed: %d; functions inlined: %d; call sites visited: %d. Rules (instances, discharged): %s"
            % (technique, len(ctx.analysed["entries"]), len(ctx.analysed["functions"]), ctx.analysed["call_sites"], "; ".join("%s: %d/%d" % (r, b, a) for r, (a, b) in sorted(rules.items()))),
            "entries": sorted(ctx.analysed["entries"]),
            "instances": ["%s :: %s%s" % (r, i, "" if o else "  [FAILED]") for r, i, o in ctx.obl],
            "known_findings": [k for k, _, _ in ctx.viol if (pid, k) in kset],
        },
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
        "assumptions": ctx.assume,
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s: %d obligations over %d entry functions (%d functions, %d call sites), %d violation(s)" % (pid, len(ctx.obl), len(ctx.analysed["entries"]), len(ctx.analysed["functions"]), ctx.analysed["call_sites"], len(new)))
    if new:
        json.dump([{"key": k, "message": m, "where": w} for k, m, w in new], open(replay, "w"), indent=1)
        for k, m, w in new:
            print("  - [%s] %s%s" % (k, m, " @ %s" % w if w else ""))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0
