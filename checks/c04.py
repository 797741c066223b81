"""Vacuum dressing functions and propagators: composition laws."""
from util import *

TITLE = "vacuum dressing/propagator algebra"
LG, LH = "low_level::oneloop::gluon", "low_level::oneloop::ghost"


def variants():
    """(module, prefix before _landau etc., additive constant name, cfg?)"""
    yield "ym::gluon", "", "f0", "ym"
    yield "ym::ghost", "", "g0", "ghost"
    yield "qcd::gluon", "", "f0", "qcd"
    yield "qcd::gluon", "_crossed", "f0", "qcd"


def obligations(env):
    A = Api(env.api)
    obs = []
    XI, D = var("xi"), var("delta")
    for ty in ("R", "C"):
        cplx = ty == "C"
        s = mkvar("s", ty)
        dom = dom_for([("s", ty), ("f0", "R"), ("g0", "R"), ("xi", "R"), ("mq", "R"), ("delta", "R")]).extend(CFGD)
        if cplx:
            dom = dom.extend({"s_i": UPPER})
        for mod, cr, c, kind in variants():
            for suf in ("", "_w_field_config"):
                if suf and kind != "qcd":
                    continue
                tag = "%s%s%s.%s" % (mod.replace("::", "_"), cr, suf, ty)

                def alg(cx, mod=mod, cr=cr, suf=suf, s=s, cplx=cplx):
                    F = Fx(cx, A)
                    for g in ("", "_landau"):
                        inv = F(mod, "dressing" + cr + "_inv" + g + suf, cplx, s=s)
                        dr = F(mod, "dressing" + cr + g + suf, cplx, s=s)
                        pr = F(mod, "propagator" + cr + g + suf, cplx, s=s)
                        cx.equal(dr, ONE / inv, "dressing%s = 1/inverse dressing" % g)
                        cx.equal(pr, ONE / (s * inv), "propagator%s = dressing/s" % g)

                def gauge(cx, mod=mod, cr=cr, suf=suf, s=s, cplx=cplx):
                    F = Fx(cx, A)
                    for a, b in (("dressing%s_inv", "dressing%s_inv_landau"), ("dressing%s", "dressing%s_landau"), ("propagator%s", "propagator%s_landau")):
                        cx.equal(F(mod, a % cr + suf, cplx, s=s, xi=ZERO), F(mod, b % cr + suf, cplx, s=s), "%s at xi = 0 is the Landau gauge one" % a)

                def build(cx, mod=mod, cr=cr, suf=suf, s=s, cplx=cplx, c=c, kind=kind):
                    F = Fx(cx, A)
                    lm, a, b = (LH, "g", "g_xi") if kind == "ghost" else (LG, "f", "f_xi")
                    base = F(lm, a, cplx, s=s) + XI * F(lm, b, cplx, s=s) + var(c)
                    if kind == "qcd":
                        fq = "f_q_crossed" if cr else "f_q"
                        if suf:
                            nc, mg, qs = CFG1
                            for n, m in qs:
                                base = base + num(n) / num(nc) * F(LG, fq, cplx, s=s * mg**2 / m**2)
                        else:
                            base = base + F(LG, fq, cplx, s=s / var("mq") ** 2) / 3
                    cx.equal(F(mod, "dressing" + cr + "_inv" + suf, cplx, s=s), base, "inverse dressing = one-loop sum")

                def shift(cx, mod=mod, cr=cr, suf=suf, s=s, cplx=cplx, c=c):
                    F = Fx(cx, A)
                    for g in ("", "_landau"):
                        n = "dressing" + cr + "_inv" + g + suf
                        cx.equal(F(mod, n, cplx, s=s, **{c: var(c) + D}), F(mod, n, cplx, s=s) + D, "additive renormalisation constant")

                for nm, fn in (("algebra", alg), ("gauge", gauge), ("sum", build), ("constant", shift)):
                    obs.append(Ob("C04.%s.%s" % (nm, tag), fn, dom))
    return obs
