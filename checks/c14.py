"""Reality, evenness, reflection and continuation."""
import loops
from util import *

TITLE = "symmetries of thermal functions"


def kin_of(mod):
    return mod[len(loops.L):]


def entries(A):
    for (mod, fn), fam in A.fam.items():
        if "thermal" not in mod or mod.startswith("common") or fn.startswith("tlog"):
            continue
        for k, e in fam.items():
            yield mod, fn, k, e


def obligations(env):
    A = Api(env.api)
    obs = []

    def add(name, fn, dom, tier="quick"):
        obs.append(Ob("C14." + name, fn, dom, tier))

    for mod, fn, k, e in entries(A):
        ty = dict(e["args"])
        nc = [n for n, t in e["args"] if t == "C"]
        real = not nc
        cfreq = nc == ["om"]
        base = edom(e)
        short = e["id"][2:]
        args = mk_args(e)
        if real and e["ret"] == "C":

            def reality(cx, e=e, args=args):
                x = cx.call(e["id"], *args)
                cx.equal(t_.im(x), ZERO, "real at real frequency")

            add("real." + short, reality, base)
        if "om" in ty and (real or cfreq):

            def even(cx, e=e, ty=ty, args=args):
                x = cx.call(e["id"], *args)
                w = mkvar("om", ty["om"])
                neg = (-var("om_r"), -var("om_i")) if ty["om"] == "C" else -w
                y = cx.call(e["id"], *mk_args(e, None, None, {"om": neg}))
                cx.equal(x, y, "even in the frequency")

            if cfreq:
                add("even." + short, even, base.extend({"om_i": UPPER}), "quick")
            else:
                add("even." + short, even, base)
        if cfreq:

            def refl(cx, e=e, args=args):
                x = cx.call(e["id"], *args)
                y = cx.call(e["id"], *mk_args(e, None, None, {"om": (var("om_r"), -var("om_i"))}))
                cx.equal(y, t_.conj(x), "conjugate frequency, conjugate value")

            add("reflection." + short, refl, base.extend({"om_i": UPPER}))
        if nc and not cfreq:
            # every argument that can be complex
            doms = [(tag, d) for tag, d in loops.Loop(kin_of(mod), e).domains()] if loops.NAME.match(fn) else [(t, base.extend({n + "_i": h if n == "om" else UPPER for n in nc})) for t, h in (("u", UPPER), ("l", LOWER)) if "om" in nc or t == "u"]
            for tag, dom in doms:
                if ty.get("om") == "C":

                    def evenc(cx, e=e, args=args):
                        x = cx.call(e["id"], *args)
                        y = cx.call(e["id"], *mk_args(e, None, None, {"om": (-var("om_r"), -var("om_i"))}))
                        cx.equal(x, y, "even in the frequency")

                    add("even.%s.%s" % (short, tag), evenc, dom)

                def reflc(cx, e=e, nc=nc, args=args):
                    x = cx.call(e["id"], *args)
                    y = cx.call(e["id"], *mk_args(e, None, None, {n: (var(n + "_r"), -var(n + "_i")) for n in nc}))
                    cx.equal(y, t_.conj(x), "conjugate arguments, conjugate value")

                add("reflection.%s.%s" % (short, tag), reflc, dom)
        if nc:
            # the real entry point of the same function
            r = next((f for f in A.fam[(mod, fn)].values() if "C" not in dict(f["args"]).values() and f is not e), None)
            if r is not None:

                def cont(cx, e=e, r=r, nc=nc):
                    x = cx.call(e["id"], *mk_args(e, None, None, {n: (var(n), ZERO) for n in nc}))
                    y = cx.call(r["id"], *mk_args(r))
                    cx.equal(x, y, "complex entry point on real arguments")

                add("continuation." + short, cont, edom(r))
        if "mu" in ty and (real or cfreq) and not (mod.endswith("quark")):

            def mueven(cx, e=e, args=args):
                x = cx.call(e["id"], *args)
                y = cx.call(e["id"], *mk_args(e, None, None, {"mu": -var("mu")}))
                cx.equal(x, y, "even in the chemical potential")

            add("mu_even." + short, mueven, base.extend({"om_i": UPPER}) if cfreq else base)
    for (mod, fn), fam in A.fam.items():
        if "thermal" in mod or mod.startswith(("common", "low_level::common")) or "_sep" in fn:
            continue
        r, c = fam.get("R"), fam.get("C")
        if r is None or c is None:
            continue
        nc = [n for n, t in c["args"] if t == "C"]

        def cont(cx, c=c, r=r, nc=nc):
            x = cx.call(c["id"], *mk_args(c, None, None, {n: (var(n), ZERO) for n in nc}))
            y = cx.call(r["id"], *mk_args(r))
            cx.equal(x, y, "complex entry point on real arguments")

        def refl(cx, c=c, nc=nc):
            x = cx.call(c["id"], *mk_args(c))
            y = cx.call(c["id"], *mk_args(c, None, None, {n: (var(n + "_r"), -var(n + "_i")) for n in nc}))
            cx.equal(y, t_.conj(x), "conjugate argument, conjugate value")

        add("continuation." + c["id"][2:], cont, edom(r))
        add("reflection." + c["id"][2:], refl, edom(c).extend({n + "_i": UPPER for n in nc}))
    return any_colors(obs)
