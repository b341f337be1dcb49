"""Check runner: python3-vt /verif/check.py <ID>"""
import json, os, sys, time, traceback
import facts
from facts import VERIF, REPO, BuildFailure

EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(VERIF, "evidence")


class Vacuous(Exception):
    pass


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.violations = []     # (key, text)
        self.undecided = []
        self.obligations = 0
        self.discharged = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assumptions = []
        self._facts = {}

    def facts(self, which="wolfram_parser"):
        if which not in self._facts:
            self._facts[which] = facts.load(which)
        return self._facts[which]

    def rule(self, text):
        self.rules.append(text)

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ok(self, what=None, n=1):
        self.obligations += n
        self.discharged += n
        if what and len(self.samples) < 40:
            self.samples.append(what)

    def bad(self, key, text):
        """key: stable identification of the failing construct"""
        self.obligations += 1
        if (key, text) not in self.violations:
            self.violations.append((key, text))

    def undec(self, text):
        self.obligations += 1
        self.undecided.append(text)

    def floor(self, what, n, least):
        """vacuity guard: the rule must have found at least `least` instances"""
        self.counts[what] = n
        if n < least:
            raise Vacuous("%s: found %d instances, expected at least %d" % (what, n, least))


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def run_check(pid, registry, tier, seed, verbose=True):
    t0 = time.time()
    entry = registry[pid]
    ctx = Ctx(pid, tier)
    code = 0
    from interp import Limit
    for r in entry["rules"]:
        # a rule that cannot follow the code decides nothing: its open obligations are listed as undecided, never as violations
        try:
            r(ctx)
        except BuildFailure as e:
            print("ERROR property=%s the tree could not be analysed: %s" % (pid, e))
            return 2
        except Limit as e:
            ctx.undec("%s stopped: %s" % (r.__name__, e))
        except Vacuous as e:
            ctx.undec("%s lost its anchors: %s" % (r.__name__, e))
        except Exception as e:
            traceback.print_exc()
            ctx.undec("%s could not follow the code: %s: %s" % (r.__name__, type(e).__name__, e))
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    real = []
    seen = set()
    for key, text in ctx.violations:
        hit = [k for k in known if k["key"] == key]
        if hit:
            if key not in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            seen.add(key)
        else:
            real.append((key, text))
    os.makedirs(EVID, exist_ok=True)
    if real:
        rp = os.path.join(EVID, pid + ".violations.txt")
        with open(rp, "w") as f:
            for key, text in real:
                f.write("[%s] %s\n" % (key, text))
        for key, text in real[:20]:
            print("  %s: %s" % (key, text[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        code = 1
    for u in ctx.undecided[:10]:
        print("UNDECIDED property=%s %s" % (pid, u[:300]))
    wall = round(time.time() - t0, 2)
    cov = {
        "rules": ctx.rules,
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "known_findings": len(ctx.violations) - len(real),
        "undecided": ctx.undecided[:50],
        "analysed": ctx.counts,
        "samples": ctx.samples or ["(no per-instance samples recorded)"],
        "checker_cmd": "python3-vt /verif/check.py %s" % pid,
        "explanation": "Static analysis of the rustc MIR and compiler-evaluated constants of the current tree; "
                       "nothing of the analysed program is executed. Rules applied: " + "; ".join(ctx.rules),
        "trusted_base": ["rustc nightly front end (MIR, const evaluation)", "/verif/driver", "/verif/lib (abstract interpreter, models of std)", "/verif/rules (oracles)"],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": entry["level"], "coverage": cov,
          "assumptions": ctx.assumptions, "violations": len(real), "wall_s": wall}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s property=%s obligations=%d discharged=%d undecided=%d wall=%.1fs" % (
        "FAIL" if code else "OK", pid, ctx.obligations, ctx.discharged, len(ctx.undecided), wall))
    return code


def main(registry):
    sys.setrecursionlimit(20000)
    tier = os.environ.get("VERIF_TIER", "quick")
    args = sys.argv[1:]
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if args == ["all"]:
        args = sorted(registry)
    rc = 0
    for p in args:
        rc = max(rc, run_check(p, registry, tier, seed))
    return rc
