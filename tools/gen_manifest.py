#!/usr/bin/env python3
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = sorted(os.path.basename(f)[1:3] for f in glob.glob(R + "/checks/c[0-9]*.py"))
TECH = "symbolic execution of the compiled LLVM IR + SMT (z3): real-arithmetic equivalence"
TECH_FP = "symbolic execution of the compiled LLVM IR + SMT (z3): IEEE-754 double semantics"
NOTE_FP = "every stated obligation is discharged for all doubles inside the printed bounds with IEEE round-to-nearest semantics; exp, expm1, ln and pow are unknown functions with stated facts (sign, monotonicity, overflow thresholds); a counterexample is reported only when the compiled code shows it; trusted: rustc's lowering to LLVM IR, the executor, z3"
NA = {
 "C30": "the guarantee is about rounding and about the convergence of an adaptive quadrature over unbounded subdivision histories; the integrands are transcendental and no solver decides floating-point exp/ln, so nothing short of sampling would remain",
 "C31": "the settings are plain unsynchronised globals by design (documented as not thread safe); a torn or racing access is undefined behaviour in the source language, so no interleaving semantics exists to encode",
 "C33": "the programs are input/output and plotting code around long numerical scans (file system, threads, gnuplot); their numerical content is covered by the library properties and by C21, C22, C24 and C25 (configuration, grids, classification, plotted and returned values of the analysis), and the formatting of text files cannot be executed symbolically within reach",
}
checks = []
na = []
for l in open(R + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if p[1:] in have:
        checks.append({
            "property": p,
            "quick_cmd": "./check.py " + p,
            "thorough_cmd": "VERIF_TIER=thorough ./check.py " + p,
            "technique": TECH_FP if p == "C23" else TECH,
            "level": "other",
            "level_note": NOTE_FP if p == "C23" else "every stated obligation is discharged for all values of the symbolic inputs inside the printed bounds, over real arithmetic (rounding, overflow and NaN are outside); the quadrature is an uninterpreted functional; trusted: rustc's lowering to LLVM IR, the executor (compared with native runs on every obligation), z3 and the axioms for exp, ln, sqrt",
        })
    else:
        na.append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(R + "/MANIFEST.json", "w"), indent=1)
