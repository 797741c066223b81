"""Quark charge density and chemical potential."""
import spec
from util import *

TITLE = "charge density"
Q = "qcd::thermal::quark"
m, beta, mu, n = (var(x) for x in ("m", "beta", "mu", "n"))
s = var("s")
TOL0, IT0 = t_.num("1e-10"), 50


def obligations(env):
    A = Api(env.api)
    obs = []
    ids = {f: A.fam[(Q, f)][""]["id"] for f in ("charge_density", "charge_density_with_method", "charge_density_zero_temp", "chemical_potential", "chemical_potential_with_method", "chemical_potential_zero_temp")}
    D = Domain({"m": "pos", "beta": "pos", "mu": "real", "mtol": ("1/100", "1/10", 0, 1)})
    M = (var("mtol"), 37)

    def density(cx, mu_, nc, tol, it):
        def f(q):
            e = spec.en(q, m)
            # two spin states times the number of colours, particles minus antiparticles
            return 2 * num(nc) * q * q / (2 * PI * PI) * (spec.fermi(e, beta, mu_) - spec.fermi(e, beta, -mu_))

        return halfline(cx, f, tol, it)

    def dens(cx, pre, nc, meth):
        if meth:
            x = cx.call(ids["charge_density_with_method"], m, beta, mu, M, pre=pre)
            tol, it = M
        else:
            x = cx.call(ids["charge_density"], m, beta, mu, pre=pre)
            g = dict(pre)
            tol, it = g.get(SETTOL, TOL0), g.get(SETIT, IT0)
        cx.equal(x, density(cx, mu, nc, tol, it), "particles minus antiparticles")

    S = [(SETTOL, var("stol")), (SETIT, 23)]
    DS = D.extend({"stol": ("1/1000", "1/10", 0, 1)})
    obs.append(Ob("C19.density", lambda cx: dens(cx, (), 3, False), D))
    obs.append(Ob("C19.density.method", lambda cx: dens(cx, (), 3, True), D))
    obs.append(Ob("C19.density.settings", lambda cx: dens(cx, S, 3, False), DS))
    obs.append(Ob("C19.density.colors", lambda cx: dens(cx, [(SETNC, 5)], 5, False), D))
    obs.append(Ob("C19.density.method.colors", lambda cx: dens(cx, [(SETNC, 2)], 2, True), D))

    def odd(cx, f, args):
        x = cx.call(ids[f], *args)
        y = cx.call(ids[f], *[-a if a in (mu, n) else a for a in args])
        cx.equal(x, -y, "odd")

    obs.append(Ob("C19.odd.density", lambda cx: odd(cx, "charge_density", (m, beta, mu)), D))
    obs.append(Ob("C19.odd.density.method", lambda cx: odd(cx, "charge_density_with_method", (m, beta, mu, M)), D))
    DZ = Domain({"m": "pos", "mu": "real"})
    obs.append(Ob("C19.odd.density.zero_temp", lambda cx: odd(cx, "charge_density_zero_temp", (m, mu)), DZ))
    DN = Domain({"m": "pos", "n": "real"})
    obs.append(Ob("C19.odd.potential.zero_temp", lambda cx: odd(cx, "chemical_potential_zero_temp", (m, n)), DN))

    def even(cx, f, args):
        x = cx.call(ids[f], *args)
        y = cx.call(ids[f], *[-a if a is m else a for a in args])
        cx.equal(x, y, "even in the mass")

    obs.append(Ob("C19.even.density", lambda cx: even(cx, "charge_density", (m, beta, mu)), D))
    obs.append(Ob("C19.even.density.method", lambda cx: even(cx, "charge_density_with_method", (m, beta, mu, M)), D))
    obs.append(Ob("C19.even.density.zero_temp", lambda cx: even(cx, "charge_density_zero_temp", (m, mu)), DZ))
    obs.append(Ob("C19.even.potential.zero_temp", lambda cx: even(cx, "chemical_potential_zero_temp", (m, n)), DN))

    for nc in (None, 2):
        pre = [] if nc is None else [(SETNC, nc)]
        N = num(3 if nc is None else nc)
        tag = "" if nc is None else ".colors"

        def cold(cx, pre=pre, N=N):
            k = cx.choose(5)
            M_ = mu
            if k == 0:
                cx.assume((lt(mu, m), True), (lt(-m, mu), True))
                y = ZERO
            elif k in (1, 2):
                cx.assume((lt(m, mu) if k == 1 else lt(mu, -m), True))
                kf = t_.sqrt(mu * mu - m * m)
                y = (1 if k == 1 else -1) * 2 * N / (2 * PI) ** 3 * (4 * PI / 3) * kf * kf * kf
            else:
                M_ = m if k == 3 else -m
                y = ZERO
            x = cx.call(ids["charge_density_zero_temp"], m, M_, pre=pre)
            cx.equal(x, y, "volume of the Fermi sphere")

        obs.append(Ob("C19.zero_temp" + tag, cold, DZ))

        def inverse(cx, pre=pre):
            cx.assume((lt(m, mu), True) if cx.choose(2) == 0 else (lt(mu, -m), True))
            x = cx.call(ids["charge_density_zero_temp"], m, mu, pre=pre)
            y = cx.call(ids["chemical_potential_zero_temp"], m, x, pre=pre)
            cx.equal(y, mu, "potential of the density of a potential")

        obs.append(Ob("C19.inverse" + tag, inverse, DZ))

        def inverse2(cx, pre=pre, N=N):
            # every density is +-N s^3/(3 pi^2) for exactly one s > 0, or zero
            z = num((1, -1, 0)[cx.choose(3)]) * N * s * s * s / (3 * PI * PI)
            x = cx.call(ids["chemical_potential_zero_temp"], m, z, pre=pre)
            y = cx.call(ids["charge_density_zero_temp"], m, x, pre=pre)
            cx.equal(y, z, "density of the potential of a density")

        obs.append(Ob("C19.inverse_density" + tag, inverse2, Domain({"m": "pos", "s": "pos"})))

    DT = Domain({"m": "pos", "beta": "pos", "n": "pos", "mtol": ("1/100", "1/10", 0, 1)})

    def zero(cx):
        cx.equal(cx.call(ids["chemical_potential_with_method"], m, beta, ZERO, M), ZERO, "no charge, no potential")
        cx.equal(cx.call(ids["chemical_potential"], m, beta, ZERO), ZERO, "no charge, no potential")

    obs.append(Ob("C19.potential.zero", zero, DT))

    def solves(cx, meth, sg):
        n_ = n if sg == "pos" else -n
        pre = [] if meth else [(SETTOL, M[0])]
        cd = lambda x: cx.call(ids["charge_density_with_method"], m, beta, x, M) if meth else cx.call(ids["charge_density"], m, beta, x, pre=pre)
        r = cx.call(ids["chemical_potential_with_method"], m, beta, n_, M) if meth else cx.call(ids["chemical_potential"], m, beta, n_, pre=pre)
        x = n_ - cd(r)
        cx.holds(lt(x, M[0]), "density at the potential within tolerance")
        cx.holds(lt(-M[0], x), "density at the potential within tolerance")

    for meth in (True, False):
        for sg in ("pos", "neg"):
            obs.append(Ob("C19.potential.%s.%s" % ("method" if meth else "default", sg), lambda cx, meth=meth, sg=sg: solves(cx, meth, sg), DT, bounds="at most 3 branch decisions beyond the ones the domain settles", maxfree=3))
    return obs
