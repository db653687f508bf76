#!/usr/bin/env python3
"""run.py <property> : quick/thorough check (VERIF_TIER, VERIF_SEED). run.py --replay <file>."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from vlib import Runner, HarnessError, build, log

def main():
    import checks
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        run = Runner(r["property"], r["tier"], r["seed"])
        for j in checks.CHECKS[r["property"]]["jobs"](r["tier"]):
            if j["variant"].name == r["variant"] and j["harness"] == r["harness"]:
                exe = build([(j["variant"], j["harness"])])[(j["variant"].name, j["harness"])]
                print("replay:", exe, r["seed"], r["tier"], r["idx"])
                run.one(exe, j["variant"].name, j["harness"], r["idx"], 1, r["idx"] + 1, j.get("env"), 600, j.get("prefix", ()), "", True)
                break
        for v in run.viol: print(json.dumps(v, indent=1))
        return 1 if run.viol else 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = checks.CHECKS[prop]
    r = Runner(prop, tier, seed)
    r.run_jobs(c["jobs"](tier))
    if "post" in c:
        c["post"](r)
    return r.finish("exploration", c["rule"], c.get("assumptions", []), c.get("min_eval", 50), c.get("required", ()))

if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as e:
        log("HARNESS ERROR:", e)
        sys.exit(2)
