"""prints the table of planted changes for DESIGN.md"""
import glob, json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
NOTE = {
    "cold-quarks": "first written for C17, which used the code's own integrals: C16 reported it; C17 now composes with quadratures of the integrands and reports it too",
    "method-order": "missed at first: C07 wrote each setting once; now histories of writes",
    "density-memo": "missed at first: C07's earlier call had the same arguments; now its own arguments and settings",
    "ratio-memo": "missed at first: C06 evaluated no other configuration before; now `C06.history`",
    "zero-momentum-norm": "missed at first: reality of the complex entry assumed; now components are compared",
    "nc-two": "needs the number of colours symbolic (was 4)",
    "few-iterations": "needs the iteration limit symbolic",
    "log-sheet": "needs the two rounds of section 1.6, each obligation being slow with the change",
    "energy-overflow": "C23 only: floating point",
    "fermi-overflow": "C23 only: floating point",
    "families-merged": "changes lines of a fix commit, so it does not count as a planted bug; kept as regression",
}
print("| change | property | needs | remark |\n|----|----|----|----|")
for d in sorted(glob.glob(R + "/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    print("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], NOTE.get(i, "")))
