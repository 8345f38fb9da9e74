"""Runs one property's rules over /repo's current sources.  Usage: run.py PROPERTY [--tier quick|thorough]"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import engine  # noqa
import facts  # noqa
from facts import AnalysisError  # noqa


class Check:
    """Collects the obligations of one property."""

    def __init__(self, pid, F, tier):
        self.pid, self.F, self.tier = pid, F, tier
        self.obl = []          # (name, ok, detail)
        self.viol = []
        self.functions = set()
        self.npaths = 0
        self.nloops = 0
        self.ncalls = 0
        self.rules = {}
        self.floor = None
        self.cases = 0
        self.open = []         # obligations the analysis cannot decide on these sources

    def rule(self, key, text):
        self.rules[key] = text

    def ob(self, name, ok, where="", detail=""):
        """One obligation: name identifies the instance, where the construct, detail the witness."""
        self.obl.append((name, bool(ok), where, detail))
        if not ok:
            self.viol.append((name, where, detail))
        return ok

    def undecided(self, name, where, why):
        """The construct is outside what the analysis understands: reported as not covered, not as a violation."""
        self.open.append((name, where, str(why)[:600]))

    def absorb_algebra(self, A):
        self.functions |= A.functions
        self.npaths += self.cases

    def absorb(self, E):
        self.functions |= E.stats["functions"]
        self.npaths += E.stats["paths"]
        self.nloops += E.stats["loops"]
        self.ncalls += E.stats["callsites"]


def known_findings():
    p = os.path.join(facts.VERIF, "known_findings.json")
    if os.path.exists(p):
        return json.load(open(p))
    return []


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    evdir = os.environ.get("VERIF_EVIDENCE") or os.path.join(facts.VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if tier == "thorough":
        engine.DEPTH, engine.MAX_PATHS = 14, 200000
    try:
        F = facts.load()
        mod = importlib.import_module("rules." + pid.lower())
        ck = Check(pid, F, tier)
        try:
            mod.run(ck)
            if len(ck.obl) + len(ck.open) < mod.FLOOR:
                raise AnalysisError("only %d obligations found, at least %d were confirmed by hand" % (len(ck.obl), mod.FLOOR))
            if len(ck.open) > max(3, len(ck.obl) // 5):
                raise AnalysisError("%d obligations are undecided, first: %s" % (len(ck.open), ck.open[0]))
        except AnalysisError as e:
            print("ANALYSIS-ERROR property=%s %s" % (pid, e))
            if not ck.viol:
                return 2
    except AnalysisError as e:
        print("ANALYSIS-ERROR property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-ERROR property=%s internal error" % pid)
        return 2
    known = [k for k in known_findings() if k.get("property") == pid and k.get("status") == "known"]
    new, old = [], []
    for v in ck.viol:
        hit = [k for k in known if k["obligation"] == v[0]]
        (old if hit else new).append(v)
    for v in old:
        k = [k for k in known if k["obligation"] == v[0]][0]
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for n, w, d in ck.open:
        print("UNDECIDED property=%s %s (%s): %s" % (pid, n, w, d))
    rep = os.path.join(evdir, "%s.report.txt" % pid)
    if new:
        with open(rep, "w") as fh:
            fh.write("property %s: %d obligation(s) not established on the current sources\n\n" % (pid, len(new)))
            for n, w, d in new:
                fh.write("obligation: %s\n  where: %s\n  why: %s\n\n" % (n, w, d))
        for n, w, d in new[:40]:
            print("  %s\n    at %s\n    %s" % (n, w, d[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "other"),
        "coverage": {
            "explanation": mod.EXPLANATION,
            "rules": ck.rules,
            "units_parsed": len(F.units),
            "functions_in_fact_base": len(F.fns),
            "functions_analysed": len(ck.functions),
            "function_names": sorted(ck.functions)[:400],
            "abstract_paths": ck.npaths, "loops_summarised": ck.nloops, "call_sites_visited": ck.ncalls,
            "obligations": len(ck.obl), "discharged": sum(1 for o in ck.obl if o[1]),
            "obligation_list": [{"name": o[0], "ok": o[1], "where": o[2]} for o in ck.obl][:600],
            "undecided": [{"name": o[0], "where": o[1], "why": o[2]} for o in ck.open],
            "known_findings": [v[0] for v in old],
            "checker_cmd": "python3 /verif/sa/run.py " + pid,
            "trusted_base": ["clang 18 front end (AST)", "/verif/extractor/extract.cc", "/verif/sa engine and std-library models"],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: %d/%d obligations discharged, %d functions, %d paths, %.1fs%s" % (
        pid, sum(1 for o in ck.obl if o[1]), len(ck.obl), len(ck.functions), ck.npaths, wall,
        ", %d known finding(s)" % len(old) if old else ""))
    return 1 if new else 0


if __name__ == "__main__":
    sys.exit(main())
