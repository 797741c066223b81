"""om -> 0."""
import loops
from util import *

TITLE = "zero-frequency limit"
L = "low_level::oneloop::thermal"
om = var("om")


def pick(A, mod, fn):
    for k, e in A.fam.get((mod, fn), {}).items():
        if "C" not in dict(e["args"]).values():
            return e
    return None


def obligations(env):
    A = Api(env.api)
    obs = []
    for l in loops.loops(A):
        if not l.kin.endswith("matsubara") or l.kind[-1] == "j":
            continue
        eg = l.general(A)

        def lim(cx, l=l, eg=eg):
            z = cx.call(l.e["id"], *l.v.values())
            g = cx.call(eg["id"], *mk_args(eg, None, None, dict(l.v, om=om)))
            cx.limit(g, om, z, "limit of vanishing frequency")

        for tag, dom in l.domains():
            obs.append(Ob("C13.limit.%s%s" % (l.name, "." + tag if tag else ""), lim, dom))
    for (mod, fn), fam in A.fam.items():
        if not mod.startswith(L) or "::zero_matsubara" not in mod or not fn.endswith("_i") or loops.NAME.match(fn):
            continue
        ez, eg = pick(A, mod, fn), pick(A, mod.replace("::zero_matsubara", ""), fn)
        if ez is None or eg is None:
            continue

        def lim(cx, ez=ez, eg=eg):
            z = cx.call(ez["id"], *mk_args(ez))
            g = cx.call(eg["id"], *mk_args(eg))
            cx.limit(g, om, z, "limit of vanishing frequency")

        obs.append(Ob("C13.limit." + ez["id"][len("low_level__oneloop__thermal__") + 2:], lim, edom(eg)))
    for c in ("", "_t"):
        for k in ("", "_same_mass", "_zero_mass"):
            ez, eg = pick(A, L + "::zero_matsubara", "tlog" + c + k), pick(A, L, "tlog" + c + k)
            if ez is None or eg is None:
                continue

            def tl(cx, ez=ez, eg=eg):
                z = cx.call(ez["id"], *mk_args(ez))
                a = cx.call(eg["id"], *mk_args(eg))
                b = cx.call(eg["id"], *mk_args(eg, None, None, {"om": -om}))
                cx.limit((a + b) / 2, om, z, "average over the sign of the frequency at vanishing frequency")

            obs.append(Ob("C13.limit.zero_matsubara__tlog%s%s" % (c, k), tl, edom(eg)))
    return any_colors(obs)
