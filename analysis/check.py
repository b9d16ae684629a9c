"""Obligations, verdicts, evidence and the command line of a check.

A check collects obligations.  Each is `ok` (shown to hold), `bad` (a construct that breaks the rule) or `unk`
(the analysis could not decide: reported as inconclusive, never as a violation).
"""

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known-findings.txt")

REGISTRY = {}


def check(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


class Inconclusive(Exception):
    pass


class Ob:
    def __init__(self, rule, construct, status, msg, where):
        self.rule, self.construct, self.status, self.msg, self.where = rule, construct, status, msg, where

    def key(self):
        return "%s | %s" % (self.rule, self.construct)


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.obs = []
        self.functions = set()
        self.paths = 0
        self.steps = 0
        self.notes = []
        self.counts = {}
        self._prog = None

    @property
    def prog(self):
        if self._prog is None:
            from . import facts
            self._prog = facts.load()
        return self._prog

    def ob(self, rule, construct, status, msg="", where=""):
        if status is True:
            status = "ok"
        elif status is False:
            status = "bad"
        elif status is None:
            status = "unk"
        self.obs.append(Ob(rule, construct, status, msg, where))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def anchor(self, path, crate="snips_nlu_lib", rule="public entry point is present"):
        """A public function this property is about; its disappearance is a violation."""
        try:
            return self.prog.find(path, crate)
        except KeyError as e:
            self.ob(rule, path, "bad", str(e))
            return None

    def floor(self, what, n, least):
        """Fails closed when the analysed population shrank below what the property speaks about."""
        self.ob("population of %s" % what, what, n >= least, "%d found, at least %d expected" % (n, least))

    def run(self, body, args, facts=frozenset(), **kw):
        from . import engine
        e = engine.Engine(self.prog, **kw)
        try:
            rs = e.run(body, args, facts)
        except engine.Budget:
            raise Inconclusive("budget exceeded in %s" % body["path"])
        self.paths += len(rs)
        self.steps += e.steps
        self.functions |= set(e.inlined)
        return e, rs


def where(body, line=None):
    sp = body.get("span") or {}
    f, l = sp.get("f", "?"), line or sp.get("l", "?")
    return "%s:%s (%s)" % (f, l, body["path"])


def known():
    """{(property, key): text} of the findings recorded as not repaired."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if l.startswith("finding: "):
                p = [x.strip() for x in l[len("finding: "):].split(" || ")]
                out[(p[0].replace("property=", ""), p[1])] = p[2] if len(p) > 2 else p[1]
    return out


def main(argv=None):
    argv = argv or sys.argv[1:]
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    for m in sorted(os.listdir(os.path.join(VERIF, "analysis", "checks"))):
        if m.endswith(".py") and m != "__init__.py":
            importlib.import_module("analysis.checks." + m[:-3])
    fn = REGISTRY[pid]
    try:
        fn(ctx)
    except Inconclusive as e:
        ctx.ob("analysis completes", "analysis", "unk", str(e))
    except Exception as e:
        ctx.ob("analysis completes", "analysis", "unk", "%s: %s" % (type(e).__name__, e))
        ctx.notes.append(traceback.format_exc()[-3000:])
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    kn = known()
    bad, listed, seen = [], [], set()
    for o in ctx.obs:
        if o.status != "bad" or o.key() in seen:
            continue
        seen.add(o.key())
        (listed if (pid, o.key()) in kn else bad).append(o)
    unk = [o for o in ctx.obs if o.status == "unk"]
    ok = [o for o in ctx.obs if o.status == "ok"]
    rules = {}
    for o in ctx.obs:
        r = rules.setdefault(o.rule, {"ok": 0, "bad": 0, "unk": 0})
        r[o.status] += 1
    samples = []
    for o in (bad + listed + ok)[:400]:
        if len(samples) < 12 and not any(s["rule"] == o.rule for s in samples[-1:]):
            samples.append({"rule": o.rule, "construct": o.construct, "status": o.status, "detail": o.msg[:300],
                            "where": o.where})
    doc = (fn.__doc__ or "").strip()
    cov = {
        "explanation": doc,
        "obligations": len(ctx.obs),
        "discharged": len(ok),
        "undecided": len(unk),
        "known_findings": len(listed),
        "rules": rules,
        "functions_analysed": len(ctx.functions),
        "paths_enumerated": ctx.paths,
        "abstract_steps": ctx.steps,
        "samples": samples,
    }
    cov.update(ctx.counts)
    if ctx.notes:
        cov["notes"] = ctx.notes
    if unk:
        cov["undecided_list"] = [{"rule": o.rule, "construct": o.construct, "detail": o.msg[:300]} for o in unk[:30]]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2),
          "violations": [{"rule": o.rule, "construct": o.construct, "detail": o.msg[:2000], "where": o.where}
                         for o in bad]}
    edir = os.path.join(VERIF, "evidence")
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for o in listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, kn[(pid, o.key())]))
    for o in unk[:10]:
        print("INCONCLUSIVE property=%s rule=%r construct=%r: %s" % (pid, o.rule, o.construct, o.msg[:300]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d listed) in %.1fs" % (
        pid, len(ctx.obs), len(ok), len(unk), len(bad) + len(listed), len(listed), time.time() - t0))
    if bad:
        rp = os.path.join(edir, "%s.violation.json" % pid)
        with open(rp, "w") as f:
            json.dump([{"rule": o.rule, "construct": o.construct, "detail": o.msg, "where": o.where} for o in bad],
                      f, indent=1)
            f.write("\n")
        for o in bad[:20]:
            print("  rule: %s\n  construct: %s\n  at: %s\n  %s" % (o.rule, o.construct, o.where, o.msg[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


if __name__ == "__main__":
    from analysis.check import main as m
    sys.exit(m())
