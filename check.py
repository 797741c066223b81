#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--only SUBSTR] [--verbose] [--nobuild]

Decides one property of /repo's current working tree by symbolic execution of
its compiled form (LLVM IR) and SMT.  Exit 0: every obligation discharged.
Exit 1: a counterexample was found and replayed natively.  Exit 2: no answer
(the code does not build, or less than half of the obligations were decided).
Obligations that stay undecided are printed and recorded in the evidence; they
are not part of what the check claims to have explored."""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(ROOT, "vlib"), os.path.join(ROOT, "checks")]
os.environ.setdefault("PYTHONHASHSEED", "0")

import build
import fw

BUDGET = 780  # seconds of a quick run, build included


def known_findings(prop):
    p = os.path.join(ROOT, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                e = json.loads(l)
                if e.get("property") == prop and e.get("status") == "known":
                    r.append(e)
    return r


def main():
    t0 = time.time()
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    verbose = "--verbose" in sys.argv
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    os.chdir(ROOT)
    mod = importlib.import_module("c" + prop[1:])
    try:
        if hasattr(mod, "environment"):
            tb = 0.0
            env = mod.environment()
            tb = time.time() - t0
        elif "--nobuild" in sys.argv:
            deps, lib = os.path.join(build.BUILD, "target/debug/deps"), os.path.join(build.BUILD, "target/debug/libvharness.so")
        else:
            deps, lib = build.build_main()
        if not hasattr(mod, "environment"):
            tb = time.time() - t0
            env = fw.Env(build.load_main(deps), lib, build.api())
        if hasattr(mod, "prepare"):
            mod.prepare(env, "--nobuild" in sys.argv)
    except build.BuildError as e:
        print("ERROR: build failed\n%s" % e)
        return 2
    obs = [o for o in mod.obligations(env) if tier == "thorough" or o.tier == "quick"]
    if only:
        obs = [o for o in obs if only in o.id]
    if not obs:
        print("ERROR: no obligations")
        return 2
    if tier == "thorough":
        for o in obs:
            o.limit *= 5
    res = fw.run_all(env, obs, int(os.environ.get("VERIF_JOBS", "8")), verbose, None if tier == "thorough" else max(60.0, BUDGET - (time.time() - t0)))
    return report(prop, tier, env, obs, res, t0, tb, mod)


def report(prop, tier, env, obs, res, t0, tb, mod):
    known = known_findings(prop)
    viol, bad = [], []
    for r in res:
        if r["status"] == "violation":
            k = [e for e in known if e["obligation"] == r["id"] and (not e.get("label") or e["label"] == r["detail"]["label"])]
            if k:
                r["status"] = "known"
                print("KNOWN-FINDING: property=%s %s" % (prop, k[0]["what"]))
            else:
                viol.append(r)
        elif r["status"] != "ok":
            bad.append(r)
    ok = [r for r in res if r["status"] == "ok"]
    used = set()
    lem = {}
    tot = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0}
    for r in res:
        used |= set(r["used"])
        for k in tot:
            tot[k] += r["solver"][k]
        for k, v in r["solver"]["lemmas"].items():
            lem[k] = lem.get(k, 0) + v
    hum = sorted({env.prog.human.get(u, u) for u in used if not u.startswith("h_")})
    crate = [h for h in hum if h.startswith(("qcd_sme", "<qcd_sme", "tc_long_prop", "vtc", "physical_tc"))]
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = {
        "property": prop,
        "tier": tier,
        "seed": fw.SEED,
        "level": "other",
        "coverage": {
            "explanation": "Every obligation is an assertion over the outputs of the compiled code, executed symbolically from LLVM IR generated from /repo on this run; it is discharged only if every feasible path is closed by z3 verdicts (path feasibility and real-arithmetic identities) for all values of the symbolic inputs inside the listed bounds.",
            "obligations": len(obs),
            "discharged": len(ok),
            "undecided": [{"obligation": r["id"], "why": str((r.get("detail") or {}).get("why"))[:200]} for r in bad],
            "assertions": sum(r["asserts"] for r in res if "asserts" in r),
            "paths_executed": sum(r["paths"] for r in res),
            "leaves": sum(r["leaves"] for r in res),
            "infeasible_combinations": sum(r["infeasible"] for r in res),
            "solver": {"queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"], "unknown": tot["unknown"], "seconds": round(tot["time"], 3)},
            "axioms_applied": lem,
            "encoding_values_compared_with_native_runs": sum(r.get("validated", 0) for r in res),
            "functions_encoded": len(hum),
            "functions_encoded_in_crate": crate[:400],
            "samples": [{"obligation": o.id, "bounds": o.bounds or o.dom.describe(), "seconds": round(r["time"], 2)} for o, r in list(zip(obs, res))[:: max(1, len(obs) // 12)]],
            "build_seconds": round(tb, 1),
        },
        "assumptions": BASE_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s (%s): %d obligations, %d discharged, %d queries, solver %.1f s, wall %.1f s" % (prop, tier, len(obs), len(ok), tot["queries"], tot["time"], time.time() - t0))
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    for r in viol:
        p = os.path.join(ROOT, "replays", "%s.json" % "".join(c if c.isalnum() or c in "._-" else "_" for c in r["id"]))
        json.dump({"property": prop, "obligation": r["id"], **r["detail"]}, open(p, "w"), indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, p))
        print("   %s: %s at %s" % (r["id"], r["detail"].get("label"), r["detail"].get("point")))
    for r in bad[: 200 if "--verbose" in sys.argv else 12]:
        print("NOT DECIDED %s: %s %s" % (r["id"], r["status"], json.dumps(r.get("detail"), default=str)[: 1500 if "--verbose" in sys.argv else 250]))
    if viol:
        return 1
    return 0 if len(bad) * 2 <= len(obs) else 2


BASE_ASSUMPTIONS = [
    "f64 arithmetic is treated as exact real/complex arithmetic (rounding, overflow and NaN propagation are outside the claim); f64 constants are read as the decimal, rational or pi-multiple they stand for",
    "the quadrature rule (peroxide integrate) is an unspecified functional of integrand, interval and method; two integrals are equal when those are",
    "ln, exp, sqrt satisfy their textbook functional equations with principal branches; points exactly on a branch cut of a complex argument are excluded",
    "trusted: rustc's lowering to LLVM IR, this executor (validated against native runs at the sampled points), z3",
]

if __name__ == "__main__":
    sys.exit(main())
