"""Thermal dressing functions and propagators from their vacuum and thermal parts."""
from util import *

TITLE = "thermal composition"
L = "low_level::oneloop::thermal::"
NORM = 16 * PI * PI / 3


def obligations(env):
    A = Api(env.api)
    obs = []

    def pick(mod, fn, ty):
        """entry whose parameters have the types of the caller's"""
        c = [f for f in A.fam.get((mod, fn), {}).values() if all(dict(f["args"])[n] == ty.get(n, "R") for n in dict(f["args"]) if n in ty)]
        return c[0] if c else None

    def one(name, mod, fn, e):
        th, _, rest = mod.partition("::thermal")
        parts = [p for p in rest.split("::") if p]
        kin, field = (parts[0] if len(parts) == 2 else ""), parts[-1]
        ty = dict(e["args"])
        comp = "l" if "_l_" in fn else "t"
        zt = "zero_temp" in fn
        cfgd = fn.endswith("_w_field_config")
        suf = ("_zero_temp" if zt else "") + "_landau" + ("_w_field_config" if cfgd else "")
        lm = L + field + ("::" + kin if kin else "")
        low = {k: ty[k] for k in ("om", "p") if k in ty}

        def thermal(cx, nm, pre, **kw):
            f = pick(lm, nm, low)
            if f is None:
                raise fw.Inconclusive("no %s with matching arguments" % nm)
            ei, reg = integrand_of(A, lm, nm, f)
            if ei is None:
                return cx.call(f["id"], *mk_args(f, None, None, kw), pre=pre)
            zt = "zero_temp" in nm
            # independently of the integrating function: the integral itself
            return integral_of(cx, ei, reg, zt, zt and sea(cx, kw["mq"], var("mu")), kw, pre, TOL8 if reg else TOL0, IT0, 2, REG0, f["ret"] == "R")

        def run(cx, setp=()):
            om = mkvar("om", ty["om"]) if "om" in ty else ZERO
            p = mkvar("p", ty["p"]) if "p" in ty else ZERO
            s = om * om + p * p
            x = cx.call(e["id"], *mk_args(e), pre=list(setp))
            if fn.startswith("propagator"):
                d = A.fam[(mod, fn.replace("propagator", "dressing"))]
                d = next((f for f in d.values() if dict(f["args"]) == ty), None) or next(iter(d.values()))
                y = cx.call(d["id"], *mk_args(d), pre=list(setp)) / s
                cx.equal(x, y, "propagator is the dressing function over the squared momentum")
                return
            if "_inv_" not in fn:
                n = "dressing_" + (comp + "_" if field == "gluon" else "") + "inv" + suf
                d = A.fam[(mod, n)]
                d = next((f for f in d.values() if dict(f["args"]) == ty), None) or pick(mod, n, {k: ty[k] for k in low})
                y = 1 / cx.call(d["id"], *mk_args(d), pre=list(setp))
                cx.equal(x, y, "dressing function is the inverse of its inverse")
                return
            cplx = any(v == "C" for v in low.values())
            if cfgd:
                nc, mg, qs = CFG1
                setn = [(SETNC, nc)]
                m = mg
            else:
                nf = dict(setp).get(SETNF, 1)
                setn = list(setp)
                m = var("m") if "m" in ty else None
                qs = [(nf, var("mq"))] if "mq" in ty else []
            s0 = s / (m * m)
            vm = th + "::" + field
            vn = "dressing_inv_landau" + ("_w_field_config" if cfgd else "")
            v = A.native(vm, vn, cplx) or A.native("ym::" + field, vn, cplx)
            over = {"s": s0}
            if not cfgd and "mq" in ty:
                over["mq"] = var("mq") / m  # in units of the gluon mass
            vac = cx.call(v["id"], *mk_args(v, CFG1 if cfgd else None, None, over), pre=list(setp))
            if field == "ghost":
                cx.equal(x, vac + NORM / s * thermal(cx, "self_energy_thermal_part_landau", setn), "vacuum plus thermal part")
                return
            t = ZERO
            if not zt:
                t = t + thermal(cx, "polarization_glue_%s_thermal_part_landau" % comp, setn, m=m)
            for nf, mq in qs:
                t = t + nf * thermal(cx, "polarization_quark_%s_thermal_part%s_landau" % (comp, "_zero_temp" if zt else ""), setn, mq=mq)
            cx.equal(x, vac - NORM / s * t, "vacuum minus thermal part")

        dom = edom(e)
        halves = [("", {})] if ty.get("om") != "C" else [(".up", {"om_i": UPPER})]
        for tag, over in halves:
            d = dom.extend(over)
            obs.append(Ob(name + tag, run, d))
            if "mq" in ty and "_inv_" in fn and not tag:
                obs.append(Ob(name + ".flavours", lambda cx: run(cx, ((SETNC, 4), (SETNF, 2))), d))

    for (mod, fn), fam in A.fam.items():
        if "::thermal" not in mod or not mod.startswith(("ym", "qcd")) or not fn.startswith(("dressing", "propagator")):
            continue
        for k, e in fam.items():
            one("C17." + e["id"][2:], mod, fn, e)
    return obs
