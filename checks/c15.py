"""One-loop thermal integrands of the ghost self-energy and gluon polarisation."""
import spec
from util import *

TITLE = "self-energy and polarisation integrands"
L = "low_level::oneloop::thermal::"


def step(cx, e, mu):
    """sum of quark and antiquark occupation numbers of the degenerate gas"""
    k = cx.choose(3)
    if k == 0:
        cx.assume((lt(e, mu), True))
        return ONE
    if k == 1:
        cx.assume((lt(e, -mu), True))
        return ONE
    cx.assume((lt(mu, e), True), (lt(-mu, e), True))
    return ZERO


def obligations(env):
    A = Api(env.api)
    obs = []
    for kin, mods in (("ghost", "ghost"), ("gluon", "gluon")):
        for (mod, fn), fam in A.fam.items():
            if mod != L + mods or not fn.endswith("_landau_i"):
                continue
            for k, e in fam.items():
                ty = dict(e["args"])

                def closed(cx, e=e, fn=fn):
                    v = {n: mkvar(n, t) for n, t in e["args"]}
                    comp = "l" if "_l_" in fn else "t"
                    pre = ()
                    if fn.startswith("self_energy"):
                        r = lambda: spec.ghost_se(v["q"], v["om"], v["p"], v["m"], v["beta"])
                    elif "glue" in fn:
                        r = lambda: spec.gluon_pol(v["q"], v["om"], v["p"], v["m"], v["beta"], comp)
                    else:
                        pre = [(SETNC, NC)]
                        if "zero_temp" in fn:
                            en = spec.en(v["q"], v["mq"])
                            occ = step(cx, en, v["mu"])
                            st = lambda x: occ
                        else:
                            st = lambda x: spec.fermi2(x, v["beta"], v["mu"])
                        r = lambda: spec.quark_pol(v["q"], v["om"], v["p"], v["mq"], NC, st, comp)
                    x = cx.call(e["id"], *mk_args(e), pre=pre)
                    cx.equal(x, r(), "integrand equals the one-loop expression")

                halves = [("", {})] if ty.get("om") != "C" else [(".up", {"om_i": UPPER}), (".down", {"om_i": LOWER})]
                if ty.get("p") == "C":
                    halves = [(t + s, dict(o, p_i=h)) for t, o in halves for s, h in ((".pup", UPPER), (".pdown", LOWER))]
                for tag, over in halves:
                    obs.append(Ob("C15." + e["id"][2:] + tag, closed, edom(e, over)))
    # special kinematics: limits of the general integrand, which is decided above
    for kin, var0 in (("zero_momentum", "p"), ("zero_matsubara", "om")):
        for (mod, fn), fam in A.fam.items():
            if mod not in (L + "gluon::" + kin, L + "ghost::" + kin) or not fn.endswith("_landau_i"):
                continue
            for k, e in fam.items():
                ty = dict(e["args"])
                g = next((x for x in A.fam.get((mod[: -len("::" + kin)], fn), {}).values() if all(ty.get(n, "R") == t for n, t in x["args"])), None)
                g = g or next((x for x in A.fam.get((mod[: -len("::" + kin)], fn), {}).values() if all(ty.get(n, t) == t for n, t in x["args"])), None)
                if g is None:
                    continue

                def kinlim(cx, e=e, g=g, var0=var0):
                    pre = [(SETNC, NC)] if "quark" in e["id"] else ()
                    ov = {n: mkvar(n, t) for n, t in e["args"]}
                    ov[var0] = var(var0)
                    z = cx.call(e["id"], *mk_args(e), pre=pre)
                    cx.limit(cx.call(g["id"], *mk_args(g, None, None, ov), pre=pre), var(var0), z, "limit of the general integrand")

                halves = [("", {})] if ty.get("om") != "C" else [(".up", {"om_i": UPPER}), (".down", {"om_i": LOWER})]
                for tag, over in halves:
                    obs.append(Ob("C15.%s%s" % (e["id"][2:], tag), kinlim, edom(e, over).extend({var0: "pos"})))
    return any_colors(obs)
