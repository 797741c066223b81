"""Kinematics and distributions in double precision."""
import z3

from fpexec import F64, FpOb

TITLE = "double-precision robustness"
V = lambda x: z3.FPVal(x, F64)
BIG, SMALL = 1e100, 1e-100


def fin(x, b=BIG):
    return z3.fpLEQ(z3.fpAbs(x), V(b))


def pos(x, lo=SMALL, hi=BIG):
    return z3.And(z3.fpGEQ(x, V(lo)), z3.fpLEQ(x, V(hi)))


def number(x):
    return z3.Not(z3.fpIsNaN(x))


def between(x, a, b):
    return z3.And(z3.fpGEQ(x, V(a)), z3.fpLEQ(x, V(b)))


def obligations(env):
    obs = []
    B = "|arguments| <= 1e100"

    def ob(nm, fids, names, pre, post, samples, tier="quick", bounds=B, limit=200):
        for f in fids:
            if f in env.api:
                obs.append(FpOb("C23.%s.%s" % (nm, f[2:]), f, names, pre, post, samples=samples, tier=tier, bounds=bounds, limit=limit))

    S = lambda *n: lambda rng: {k: round(rng.uniform(0.1, 3), 3) for k in n}
    fm = ("h_common__thermal__fermi_momentum", "h_x_fermi_momentum")
    # at the threshold and beyond it the Fermi momentum is a number
    ob("threshold.same", fm, ["m", "m"], lambda v: [fin(v["m"])], lambda v, o: [("zero at mu = m", z3.fpIsZero(o[0]))], S("m"))
    ob("fermi_momentum", fm, ["m", "mu"], lambda v: [fin(v["m"]), fin(v["mu"]), z3.fpGEQ(z3.fpAbs(v["mu"]), z3.fpAbs(v["m"]))], lambda v, o: [("a non-negative number", z3.And(number(o[0]), z3.fpGEQ(o[0], V(0.0)), z3.Not(z3.fpIsInf(o[0])))), ("zero at |mu| = |m|", z3.Implies(z3.fpEQ(z3.fpAbs(v["mu"]), z3.fpAbs(v["m"])), z3.fpIsZero(o[0])))], lambda rng: (lambda m: {"m": m, "mu": m + rng.uniform(0, 2)})(rng.uniform(0.1, 1)))
    en = ("h_common__energy_R", "h_x_energy")
    ob("energy", en, ["p", "m"], lambda v: [fin(v["p"]), fin(v["m"])], lambda v, o: [("a non-negative finite number", z3.And(number(o[0]), z3.fpGEQ(o[0], V(0.0)), z3.Not(z3.fpIsInf(o[0])))), ("positive for a positive mass or momentum", z3.Implies(z3.Or(pos(v["m"]), pos(v["p"])), z3.fpGT(o[0], V(0.0))))], S("p", "m"))
    th = "h_common__thermal__"

    def dist(nm, args):
        return [th + nm + ("_RR" if "mu" in args else "_R"), "h_x_" + nm]

    full = lambda v: [fin(v[k]) for k in v if k != "beta"] + [pos(v["beta"])]
    for nm, args, hi in (("fermi_distribution", ("en", "beta", "mu"), 1), ("fermi_distribution_double", ("en", "beta", "mu"), 2), ("fermi_distribution_zero_chempot", ("en", "beta"), 1)):
        ob("range", dist(nm, args), list(args), full, lambda v, o, hi=hi: [("a number between 0 and %d" % hi, between(o[0], 0.0, float(hi)))], S(*args))
    ob("range.half", dist("fermi_distribution_zero_chempot", ("en", "beta")), ["en", "beta"], lambda v: full(v) + [z3.fpGEQ(v["en"], V(0.0))], lambda v, o: [("at most one half", between(o[0], 0.0, 0.5))], S("en", "beta"))
    ob("side", dist("fermi_distribution", ("en", "beta", "mu")), ["en", "beta", "mu"], full, lambda v, o: [("at least one half below the chemical potential", z3.Implies(z3.fpLEQ(v["en"], v["mu"]), z3.fpGEQ(o[0], V(0.5)))), ("at most one half above the chemical potential", z3.Implies(z3.fpGEQ(v["en"], v["mu"]), z3.fpLEQ(o[0], V(0.5))))], S("en", "beta", "mu"))
    ob("range", dist("bose_distribution", ("en", "beta", "mu")), ["en", "beta", "mu"], lambda v: full(v) + [z3.fpGT(v["en"], v["mu"])], lambda v, o: [("a non-negative number", z3.fpGEQ(o[0], V(0.0)))], lambda rng: {"en": 2 + rng.random(), "beta": 1.5, "mu": rng.random()})
    ob("range", dist("bose_distribution_zero_chempot", ("en", "beta")), ["en", "beta"], lambda v: full(v) + [z3.fpGT(v["en"], V(0.0))], lambda v, o: [("a non-negative number", z3.fpGEQ(o[0], V(0.0)))], S("en", "beta"))
    # decoupling: nothing is left of the distributions at very large energies
    far = lambda v: full(v) + [z3.fpGEQ(v["beta"], V(1.0)), z3.fpGEQ(v["en"], V(2000.0))] + ([fin(v["mu"], 1000.0)] if "mu" in v else [])
    for nm, args in (("fermi_distribution", ("en", "beta", "mu")), ("fermi_distribution_double", ("en", "beta", "mu")), ("fermi_distribution_zero_chempot", ("en", "beta")), ("bose_distribution", ("en", "beta", "mu")), ("bose_distribution_zero_chempot", ("en", "beta"))):
        ob("far", dist(nm, args), list(args), far, lambda v, o: [("zero", z3.fpIsZero(o[0]))], lambda rng, args=args: {"en": 3000.0, "beta": 2.0, **({"mu": 1.5} if "mu" in args else {})}, bounds="en from 2000 to 1e100, beta from 1 to 1e100, |mu| <= 1000")
    for nm, hi in (("fermi_distribution_zero_temp", 1), ("fermi_distribution_double_zero_temp", 2)):
        ob("range", dist(nm, ("en", "mu")), ["en", "mu"], lambda v: [number(v["en"]), number(v["mu"])], lambda v, o, hi=hi: [("an integer from 0 to %d" % hi, z3.Or(*[z3.fpEQ(o[0], V(float(k))) for k in range(hi + 1)]))], S("en", "mu"), bounds="all doubles except NaN")
    q = "h_qcd__thermal__quark__"
    ob("density", [q + "charge_density_zero_temp"], ["m", "mu"], lambda v: [fin(v["m"], 1e50), fin(v["mu"], 1e50)], lambda v, o: [("a finite number", z3.And(number(o[0]), z3.Not(z3.fpIsInf(o[0])))), ("zero up to the threshold", z3.Implies(z3.fpLEQ(z3.fpAbs(v["mu"]), z3.fpAbs(v["m"])), z3.fpIsZero(o[0])))], S("m", "mu"), bounds="|arguments| <= 1e50")
    ob("potential", [q + "chemical_potential_zero_temp"], ["m", "n"], lambda v: [fin(v["m"], 1e50), fin(v["n"], 1e50)], lambda v, o: [("a finite number", z3.And(number(o[0]), z3.Not(z3.fpIsInf(o[0])))), ("the sign of the density", z3.And(z3.Implies(z3.fpGT(v["n"], V(0.0)), z3.fpGEQ(o[0], V(0.0))), z3.Implies(z3.fpLT(v["n"], V(0.0)), z3.fpLEQ(o[0], V(0.0)))))], S("m", "n"), bounds="|arguments| <= 1e50")
    return obs
