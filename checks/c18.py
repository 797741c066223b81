"""Cold quark matter: the degenerate limit of the thermal quark contributions."""
import spec
from c15 import step
from util import *

TITLE = "zero-temperature quark matter"
L = "low_level::oneloop::thermal::"


def obligations(env):
    A = Api(env.api)
    obs = []
    mu, mq, beta = var("mu"), var("mq"), var("beta")
    for (mod, fn), fam in A.fam.items():
        if "zero_temp" not in fn:
            continue
        for k, e in fam.items():
            ty = dict(e["args"])
            if "mu" not in ty or ("mq" not in ty and "F" not in ty.values()):
                continue
            nm = e["id"][2:]
            halves = [("", {})] if ty.get("om") != "C" else [(".up", {"om_i": UPPER})]
            for tag, over in halves:
                dom = edom(e, over)
                if mod.startswith(L) and fn.endswith("_i"):
                    ft = [f for f in A.fam[(mod, fn.replace("_zero_temp", ""))].values() if all(ty.get(n, "R") == t for n, t in f["args"])][0]

                    def deg(cx, e=e, ft=ft):
                        en = spec.en(var("q"), mq)
                        occ = step(cx, en, mu)
                        x = cx.call(e["id"], *mk_args(e))
                        y = cx.call(ft["id"], *mk_args(ft))
                        cx.equal(x * spec.fermi2(en, beta, mu), occ * y, "Fermi sea in place of the thermal distribution")

                    obs.append(Ob("C18.sea." + nm + tag, deg, dom.extend({"beta": "pos"})))


                ev = lambda cx, e=e: cx.equal(cx.call(e["id"], *mk_args(e)), cx.call(e["id"], *mk_args(e, None, None, {"mu": -mu})), "even in the chemical potential")
                if mod.startswith(L) and "mq" in ty:
                    em = lambda cx, e=e: cx.equal(cx.call(e["id"], *mk_args(e)), cx.call(e["id"], *mk_args(e, None, None, {"mq": -mq})), "even in the quark mass")
                    obs.append(Ob("C18.even_mass." + nm + tag, em, dom))
                if not fn.startswith("charge"):
                    obs.append(Ob("C18.even." + nm + tag, ev, dom))

                def vac(cx, e=e, mod=mod, fn=fn, ty=ty):
                    ms = [mq] if "mq" in ty else [q[1] for q in CFG1[2]]
                    at = cx.choose(3) if len(ms) == 1 else 0  # below, at, at minus the threshold
                    for m in ms:
                        if at == 0:
                            cx.assume((lt(mu, m), True), (lt(-m, mu), True))
                    x = cx.call(e["id"], *mk_args(e, None, None, {} if at == 0 else {"mu": mq if at == 1 else -mq}))
                    if mod.startswith(L):
                        cx.equal(x, ZERO, "no Fermi sea")
                        return
                    # dressed functions reduce to the vacuum ones
                    field = mod.split("::")[-1]
                    om = mkvar("om", ty["om"]) if "om" in ty else ZERO
                    p = mkvar("p", ty["p"]) if "p" in ty else ZERO
                    s = om * om + p * p
                    cfgd = "F" in ty.values()
                    m = CFG1[1] if cfgd else var("m")
                    f = fn.replace("_zero_temp", "").replace("_l_", "_").replace("_t_", "_")
                    base = "dressing_inv_landau" + ("_w_field_config" if cfgd else "")
                    v = A.native("qcd::" + field, base, "C" in ty.values())
                    o = {"s": s / (m * m)}
                    if not cfgd:
                        o["mq"] = mq / m
                    y = cx.call(v["id"], *mk_args(v, CFG1 if cfgd else None, None, o))
                    if "inv" not in f:
                        y = 1 / y
                    if f.startswith("propagator"):
                        y = y / s
                    cx.equal(x, y, "vacuum when no quark can be present")

                if not fn.endswith("_landau_i") and not fn.startswith(("charge", "chem")):
                    obs.append(Ob("C18.vacuum." + nm + tag, vac, dom))
    return any_colors(obs, flavors=True)
