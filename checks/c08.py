"""Thermal distributions and dispersion relations."""
import spec
from util import *

TITLE = "thermal distributions"
CT, CO, LC = "common::thermal", "common", "low_level::common"
en, be, mu, x = var("en"), var("beta"), var("mu"), var("x")


def exp(z):
    return t_.exp(tonum(z))


def obligations(env):
    A = Api(env.api)
    obs = []

    def ob(name, fn, dom):
        obs.append(Ob("C08." + name, fn, dom))

    for e in env.api.values():
        if e.get("kind") != "native" or e["mod"] not in (CT, CO, LC):
            continue
        cplx = any(t == "C" for _, t in e["args"])
        names = dict(e["args"])

        def closed(cx, e=e, names=names):
            v = {n: mkvar(n, t) for n, t in e["args"]}
            r = cx.call(e["id"], *[v[n] for n, _ in e["args"]])
            s = e["sym"]
            if s == "energy":
                w = t_.sqrt(v["p"] ** 2 + v["m"] ** 2)
            elif s == "energy_squared":
                w = v["p"] ** 2 + v["m"] ** 2
            elif s == "fermi_momentum":
                w = t_.sqrt(v["mu"] ** 2 - v["m"] ** 2)
            else:
                m = v.get("mu", ZERO)
                E = v["en"]
                re = t_.re(E - m)
                if "zero_temp" in s:
                    def step(a, b):
                        a, b = t_.re(a), t_.re(b)
                        c = cx.choose(2)
                        cx.assume((lt(b, a), c == 0))
                        return ONE if c else ZERO
                    w = step(E, m)
                    if "double" in s:
                        w = w + step(E, -m)
                else:
                    B = v["beta"]
                    z = exp(B * (E - m))
                    if "statistic" in s:
                        w = z
                    elif "bose" in s:
                        w = 1 / (z - 1)
                    else:
                        w = 1 / (z + 1)
                        if "double" in s:
                            w = w + 1 / (exp(B * (E + m)) + 1)
            cx.equal(r, w, "%s is the textbook function" % s)

        dom = edom(e)
        if e["sym"] == "fermi_momentum":
            dom = Domain({"m": "pos", "mu": "real"}, facts=[(lt(var("m") ** 2, var("mu") ** 2), True)])
        elif cplx:
            dom = dom.extend({n + "_i": UPPER for n, t in e["args"] if t == "C"})
        ob("closed.%s" % e["id"][2:], closed, dom)

    R3 = {"en": "real", "mu": "real", "beta": "pos", "x": "pos"}

    def fermi_range(cx):
        F = Fx(cx, A)
        f = F(CT, "fermi_distribution")
        cx.holds(lt(ZERO, f), "Fermi distribution is positive")
        cx.holds(lt(f, ONE), "Fermi distribution is below one")
        d = F(CT, "fermi_distribution_double")
        cx.holds(lt(ZERO, d), "double Fermi distribution is positive")
        cx.holds(lt(d, tonum(2)), "double Fermi distribution is below two")

    def fermi_reflection(cx):
        F = Fx(cx, A)
        cx.equal(F(CT, "fermi_distribution", en=mu + x) + F(CT, "fermi_distribution", en=mu - x), ONE, "particle-hole reflection")
        cx.equal(F(CT, "fermi_distribution", en=mu), num("1/2"), "half filling at the Fermi energy")
        cx.equal(F(CT, "fermi_distribution_double", mu=-mu), F(CT, "fermi_distribution_double"), "even in the chemical potential")
        cx.equal(F(CT, "fermi_distribution_double"), F(CT, "fermi_distribution") + F(CT, "fermi_distribution", mu=-mu), "sum of particles and antiparticles")
        cx.equal(F(CT, "fermi_distribution_zero_chempot"), F(CT, "fermi_distribution", mu=ZERO), "vanishing chemical potential")

    def bose_reflection(cx):
        F = Fx(cx, A)
        cx.equal(F(CT, "bose_distribution", en=mu + x) + F(CT, "bose_distribution", en=mu - x), num(-1), "reflection")
        cx.equal(F(CT, "bose_distribution_zero_chempot"), F(CT, "bose_distribution", mu=ZERO), "vanishing chemical potential")

    def relation(cx):
        F = Fx(cx, A)
        b, f = F(CT, "bose_distribution_zero_chempot"), F(CT, "fermi_distribution_zero_chempot")
        b2 = F(CT, "bose_distribution_zero_chempot", beta=2 * be)
        cx.equal(b - f, 2 * b2, "Bose minus Fermi is twice Bose at half the temperature")

    def mono(cx):
        F = Fx(cx, A)
        cx.holds(lt(F(CT, "fermi_distribution", en=en + x), F(CT, "fermi_distribution")), "Fermi distribution decreases with energy")

    def bose_sign(cx):
        F = Fx(cx, A)
        cx.holds(lt(ZERO, F(CT, "bose_distribution", en=mu + x)), "Bose distribution is positive above the chemical potential")

    def fermi_mom(cx):
        F = Fx(cx, A)
        k = F(CT, "fermi_momentum")
        cx.equal(F(CO, "energy", p=k, m=var("m")), mu, "energy at the Fermi momentum is the chemical potential")
        cx.holds(le(ZERO, k), "Fermi momentum is not negative")
        cx.equal(F(CT, "fermi_momentum", mu=-mu), k, "even")

    def energy(cx):
        F = Fx(cx, A)
        e = F(CO, "energy")
        cx.equal(e * e, F(CO, "energy_squared"), "square of the energy")
        cx.holds(le(var("m"), e), "energy is at least the mass")
        cx.holds(le(var("p"), e), "energy is at least the momentum")

    def cont(cx):
        """complex entry points agree with the real ones on real arguments"""
        F = Fx(cx, A)
        for fn in ("fermi_distribution", "fermi_distribution_double", "bose_distribution", "fermi_distribution_zero_temp", "fermi_distribution_double_zero_temp"):
            cx.equal(F(CT, fn, True, en=(en, ZERO), mu=(mu, ZERO)), F(CT, fn), fn + " on real arguments")
        for fn in ("fermi_distribution_zero_chempot", "bose_distribution_zero_chempot"):
            cx.equal(F(CT, fn, True, en=(en, ZERO)), F(CT, fn), fn + " on real arguments")

    def matsubara(cx):
        """shifting the energy by a bosonic Matsubara frequency changes nothing;
        by a fermionic one turns Bose into minus Fermi"""
        F = Fx(cx, A)
        w = 2 * PI / be
        cx.equal(F(CT, "bose_distribution_zero_chempot", True, en=(en, w)), F(CT, "bose_distribution_zero_chempot", True, en=(en, ZERO)), "periodicity")
        cx.equal(F(CT, "bose_distribution_zero_chempot", True, en=(en, w / 2)), -F(CT, "fermi_distribution_zero_chempot", True, en=(en, ZERO)), "antiperiodicity")

    for nm, fn, d in (
        ("fermi_range", fermi_range, R3), ("fermi_reflection", fermi_reflection, R3), ("bose_reflection", bose_reflection, R3),
        ("bose_fermi", relation, {**R3, "en": "pos"}), ("fermi_monotonic", mono, R3), ("bose_sign", bose_sign, R3), ("continuation", cont, R3), ("matsubara", matsubara, {**R3, "en": "pos"}),
        ("energy", energy, {"p": "real", "m": "pos"}),
    ):
        ob(nm, fn, Domain(d))
    ob("fermi_momentum", fermi_mom, Domain({"m": "pos", "mu": "pos"}, facts=[(lt(var("m"), mu), True)]))
    return obs
