"""p -> 0."""
import loops
from util import *

TITLE = "zero-momentum limit"
L = "low_level::oneloop::thermal"
p = var("p")


def general_of(A, mod, fn, cplx):
    """entry of the general kinematics with the same name; real masses"""
    f = A.fam.get((mod, fn), {})
    for k, e in f.items():
        ty = dict(e["args"])
        if not cplx and "C" not in ty.values():
            return e
        if cplx and ty.get("om") == "C" and all(t != "C" or n == "om" for n, t in e["args"]):
            return e
    return None


def halves(dom, cplx):
    if not cplx:
        return [("", dom)]
    return [(".up", dom.extend({"om_i": UPPER})), (".down", dom.extend({"om_i": LOWER}))]


def obligations(env):
    A = Api(env.api)
    obs = []
    for l in loops.loops(A):
        if not l.kin.endswith("momentum") or l.kind[-1] == "j":
            continue
        eg = l.general(A)

        def lim(cx, l=l, eg=eg):
            z = cx.call(l.e["id"], *l.v.values())
            g = cx.call(eg["id"], *mk_args(eg, None, None, dict(l.v, p=p)))
            cx.limit(g, p, z, "limit of vanishing momentum")

        for tag, dom in l.domains():
            obs.append(Ob("C12.limit.%s%s" % (l.name, "." + tag if tag else ""), lim, dom))
    for (mod, fn), fam in A.fam.items():
        if not mod.startswith(L) or not mod.endswith(("zero_momentum", "zero_momentum::gluon", "zero_momentum::ghost")) or not fn.endswith("_i"):
            continue
        if loops.NAME.match(fn):
            continue
        gm = mod.replace("::zero_momentum", "")
        for cplx in (False, True):
            ez, eg = general_of(A, mod, fn, cplx), general_of(A, gm, fn, cplx)
            if ez is None or eg is None:
                continue

            def lim(cx, ez=ez, eg=eg):
                z = cx.call(ez["id"], *mk_args(ez))
                g = cx.call(eg["id"], *mk_args(eg))
                cx.limit(g, p, z, "limit of vanishing momentum")

            for tag, dom in halves(edom(eg), cplx):
                obs.append(Ob("C12.limit." + ez["id"][len("low_level__oneloop__thermal__") + 2:] + tag, lim, dom))
        if "_l_" in fn:
            for cplx in (False, True):
                a, b = general_of(A, mod, fn, cplx), general_of(A, mod, fn.replace("_l_", "_t_"), cplx)
                if a is None or b is None or "polarization" not in fn:
                    continue

                def iso(cx, a=a, b=b):
                    cx.equal(cx.call(a["id"], *mk_args(a)), cx.call(b["id"], *mk_args(b)), "longitudinal = transverse at zero momentum")

                for tag, dom in halves(edom(a), cplx):
                    obs.append(Ob("C12.isotropy." + a["id"][len("low_level__oneloop__thermal__") + 2:] + tag, iso, dom))
    # integrated and dressed functions
    for (mod, fn), fam in A.fam.items():
        if not mod.endswith("zero_momentum::gluon") or "_l_" not in fn:
            continue
        for cplx in (False, True):
            a, b = general_of(A, mod, fn, cplx), general_of(A, mod, fn.replace("_l_", "_t_"), cplx)
            if a is None or b is None:
                continue

            def iso(cx, a=a, b=b):
                cx.equal(cx.call(a["id"], *mk_args(a)), cx.call(b["id"], *mk_args(b)), "longitudinal = transverse at zero momentum")

            for tag, dom in halves(edom(a), cplx):
                obs.append(Ob("C12.isotropy." + a["id"][2:] + tag, iso, dom))
    return any_colors(obs)
