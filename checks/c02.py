"""Vacuum one-loop functions = closed-form reference, real and complex."""
import spec
from util import *

TITLE = "vacuum one-loop functions"
ASSUMPTIONS = ["reference: the closed forms of /repo/tests/numerics.py (the repository's independent Python implementation), transcribed in vlib/spec.py"]
LG, LH = "low_level::oneloop::gluon", "low_level::oneloop::ghost"

CASES = [
    (LG, "f", lambda s: spec.f(s)),
    (LG, "f_xi", lambda s: spec.f_xi(s)),
    (LG, "f_q", lambda s: spec.f_q(s)),
    (LG, "f_q_crossed", lambda s: spec.f_q_crossed(s)),
    (LH, "g", lambda s: spec.g(s)),
    (LH, "g_xi", lambda s: spec.g_xi(s)),
]


def lns(s):
    return t_.ln(s), t_.ln(s + 1)


def ty_of(cplx):
    return "C" if cplx else "R"


def obligations(env):
    A = Api(env.api)
    obs = []
    for ty in ("R", "C", "Clower"):
        cplx = ty != "R"
        s = mkvar("s", ty[0])
        dom = dom_for([("s", ty[0]), ("f0", "R"), ("g0", "R"), ("xi", "R")])
        if cplx:
            dom = dom.extend({"s_i": UPPER if ty == "C" else LOWER})
        for mod, fn, ref in CASES:
            obs.append(Ob("C02.%s.%s" % (fn, ty), mk(A, mod, fn, cplx, s, ref), dom))
            if fn.startswith("f_q"):
                continue

            def sep(cx, mod=mod, fn=fn, cplx=cplx, s=s, ref=ref):
                F = Fx(cx, A)
                a, b = lns(s)
                cx.equal(F(mod, fn + "_sep", cplx, s=s, ln_s=a, ln_s_pl_1=b), ref(s), fn + "_sep")

            obs.append(Ob("C02.%s_sep.%s" % (fn, ty), sep, dom))

            def sheet(cx, mod=mod, fn=fn, cplx=cplx, s=s, ref=ref):
                F = Fx(cx, A)
                a, b = lns(s)
                d, d1 = mkvar("d", ty_of(cplx)), mkvar("e", ty_of(cplx))
                cx.equal(F(mod, fn + "_sep", cplx, s=s, ln_s=a + d, ln_s_pl_1=b + d1), ref(s) + spec.sep_shift(fn, s, d, d1), fn + "_sep on the branch given")

            ext = {"d_r": "real", "e_r": "real", "d_i": (-7, 7, -20, 20), "e_i": (-7, 7, -20, 20)} if cplx else {"d": "real", "e": "real"}
            obs.append(Ob("C02.%s_sep.branch.%s" % (fn, ty), sheet, dom.extend(ext)))
        for mod, pre, F1, F2, c in ((LG, "ym_", spec.f, spec.f_xi, "f0"), (LH, "", spec.g, spec.g_xi, "g0")):
            xi, c0 = var("xi"), var(c)

            def inv(cx, mod=mod, pre=pre, F1=F1, F2=F2, c=c, cplx=cplx, s=s, xi=xi, c0=c0):
                F = Fx(cx, A)
                a, b = lns(s)
                kw = {"s": s, "ln_s": a, "ln_s_pl_1": b, c: c0}
                cx.equal(F(mod, pre + "dressing_inv_landau_sep", cplx, **kw), F1(s) + c0, "landau")
                cx.equal(F(mod, pre + "dressing_inv_sep", cplx, xi=xi, **kw), F1(s) + xi * F2(s) + c0, "general gauge")

            obs.append(Ob("C02.%s%s_inv_sep.%s" % (pre, mod.split("::")[-1], ty), inv, dom))
    return obs


def mk(A, mod, fn, cplx, s, ref):
    def go(cx):
        cx.equal(Fx(cx, A)(mod, fn, cplx, s=s), ref(s), fn)

    return go
