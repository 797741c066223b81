"""Integrated thermal functions against quadratures of the integrands of the same name."""
from util import *

TITLE = "integrated functions"
L = TH_L


def obligations(env):
    A = Api(env.api)
    obs = []
    for (mod, fn), fam in A.fam.items():
        if not mod.startswith(L) or not fn.endswith(("_landau", "_landau_w_method")):
            continue
        for k, e in fam.items():
            ei, reg = integrand_of(A, mod, fn, e)
            ty = dict(e["args"])
            if ei is None:
                continue

            def plumb(cx, e=e, ei=ei, mod=mod, fn=fn, reg=reg, setp=None, rule=2):
                zt = "zero_temp" in fn
                setp = setp or {}
                pre = [(f, v) for f, v in setp.items()]
                if fn.endswith("_w_method"):
                    tol, it = var("mtol"), var("mit") if rule > 1 else 9
                else:
                    tol, it = setp.get(SETTOL, TOL0), setp.get(SETIT, IT0)
                    if reg and (tol, it) == (TOL0, IT0):
                        tol = TOL8
                empty = zt and sea(cx, var("mq"), var("mu"))
                x = cx.call(e["id"], *mk_args(e, None, (tol, it, rule)), pre=pre)
                y = integral_of(cx, ei, reg, zt, empty, {}, pre, tol, it, rule, setp.get(SETREG, REG0), e["ret"] == "R")
                cx.equal(x, y, "quadrature of the integrand")

            halves = [("", {})] if ty.get("om") != "C" else [(".up", {"om_i": UPPER}), (".down", {"om_i": LOWER})]
            for tag, over in halves:
                dom = edom(e, over).extend({"mit": (1, 90, 1, 10**6)}, ints=["mit"])
                nm = "C16.%s%s" % (e["id"][2:], tag)
                obs.append(Ob(nm, plumb, dom))
                if fn.endswith("_w_method") and tag != ".down":
                    # the other rules, with fixed order and adaptive
                    def rules(cx, p=plumb):
                        p(cx, rule=(0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)[cx.choose(13)])

                    obs.append(Ob(nm + ".rules", rules, dom))
                if fn.endswith("_w_method") or tag == ".down":
                    continue
                st = dom.extend({"stol": ("1/1000", "1/10", 0, 1), "sreg": ("1/100", "1/10", 0, 1)})
                vs = [("settings", {SETTOL: var("stol"), SETIT: 23, SETREG: var("sreg")})]
                if reg:
                    # one of the two settings alone is a choice of the user's
                    vs += [("tol_set", {SETTOL: var("stol")}), ("iter_set", {SETIT: 23}), ("reg_set", {SETREG: var("sreg")})]
                if "quark" in fn:
                    vs.append(("colors", {SETNC: 4}))
                for vn, s in vs:
                    d = st
                    if SETTOL in s:
                        d = st.extend(facts=[(eq(var("stol"), TOL0), False)])
                    obs.append(Ob(nm + "." + vn, lambda cx, s=s, p=plumb: p(cx, setp=s), d))
    return obs
