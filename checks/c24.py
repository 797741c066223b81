"""Configuration of the critical-temperature analysis (physical_tc)."""
import build
import c21
import fw
from util import *

TITLE = "analysis configuration"


def environment():
    prog, lib, api, _ = build.build_tc("vtcp", "bin/physical_tc.rs", "phys_tail.rs")
    return fw.Env(prog, lib, api)


def obligations(env):
    obs = []
    mu, t, f0, ren, om, mg = (var(x) for x in ("mu", "t", "f0", "ren", "om", "mg"))
    ln = t_.ln

    def base(nf):
        r = {x: "pos" for x in ["mu", "t", "ren", "om", "mg"] + ["mq%d" % i for i in range(len(nf))] + ["mc%d" % i for i in range(len(nf))]}
        r["f0"] = "real"
        return r

    def start(nf, nc):
        """additive constant in the library's renormalisation convention"""
        s = ZERO
        for i, k in enumerate(nf):
            s = s + num(k) * ln(mg / var("mq%d" % i))
        return f0 + s * 4 / (9 * num(nc))

    def corr(nf, nc):
        """the same with the corrected masses' logarithms: the quark loop does
        not see the change of convention"""
        s = ZERO
        for i, k in enumerate(nf):
            s = s + num(k) * ln(mg / var("mc%d" % i))
        return f0 + s * 4 / (9 * num(nc))

    for nc in (3, 2, 5):
        for nf in ((), (2,), (2, 1), (1, 1, 3)):
            tag = "%d.%s" % (nc, "_".join(map(str, nf)) or "none")
            FC = (nc, mg, [(k, var("mq%d" % i)) for i, k in enumerate(nf)])
            CC = (nc, mg, [(k, var("mc%d" % i)) for i, k in enumerate(nf)])

            def plain(cx, FC=FC, nf=nf, nc=nc):
                r = cx.call("h_tc_config_plain", mu, t, f0, ren, om, FC)
                cx.equal(r[0], start(nf, nc), "additive constant")
                cx.equal(r[1], ONE, "uncorrected configuration")
                cx.equal(r[2], ren, "renormalisation point")
                cx.equal(r[3], ren * ren, "squared renormalisation point")
                cx.equal(r[4], om, "Matsubara frequency")

            obs.append(Ob("C24.plain." + tag, plain, Domain(base(nf))))

            def reset(cx, FC=FC, CC=CC, nf=nf, nc=nc):
                r = cx.call("h_tc_config_reset", mu, t, f0, ren, om, FC, CC, [ZERO, ONE])
                cx.equal(r[0], start(nf, nc), "additive constant")
                cx.equal(r[1], ONE, "uncorrected configuration")

            obs.append(Ob("C24.reset." + tag, reset, Domain(base(nf))))
            OC = (nc, mg, [(k, var("mo%d" % i)) for i, k in enumerate(nf)])

            def twice(cx, FC=FC, CC=CC, OC=OC, nf=nf, nc=nc):
                flat = [ZERO, var("t0"), var("dz"), ZERO]
                old = [ZERO, var("o0"), var("oz"), ZERO]
                up = cx.choose(2)
                cx.assume((lt(var("t0"), t), True) if up else (le(t, var("t0")), True))
                order = cx.choose(5)
                r = cx.call("h_tc_config_twice", order, ZERO, t, f0, ren, om, FC, OC, CC, old, flat)
                cx.equal(r[1], num(2 if up else 1), "the configuration written last, in the deconfined phase")
                cx.equal(r[0], corr(nf, nc) if up else start(nf, nc), "the constant of the configuration written last")
                cx.equal(r[2], ONE, "reduced boundary")

            TT = ("1/10", 3, 0, 1000)
            obs.append(Ob("C24.twice." + tag, twice, Domain({**base(nf), **{"mo%d" % i: "pos" for i in range(len(nf))}, "t0": TT, "o0": TT, "dz": TT, "oz": TT})))
            for n in (1, 2):
                d = base(nf)
                for i in range(n):
                    d["t%d" % i] = ("1/10", 3, 0, 1000)
                    if i:
                        d["d%d" % i] = ("1/10", 3, 0, 1000)
                d["dz"] = ("1/10", 1, 0, 1000)

                def corrected(cx, FC=FC, CC=CC, nf=nf, nc=nc, n=n):
                    ms = [ZERO]
                    for i in range(1, n):
                        ms.append(ms[-1] + var("d%d" % i))
                    pb = list(zip(ms, [var("t%d" % i) for i in range(n)])) + [(ms[-1] + var("dz"), ZERO)]
                    flat = [x for p in pb for x in p]
                    # one choice per region of the phase diagram
                    k = cx.choose(2 * n + 1)
                    T, dec = t, None
                    if k < n:
                        M = ms[k]
                        up = cx.choose(2)
                        cx.assume((lt(var("t%d" % k), t), True) if up else (le(t, var("t%d" % k)), True))
                    elif k < 2 * n - 1:
                        i = k - n
                        M = mu
                        cx.assume((lt(ms[i], mu), True))
                        cx.assume((lt(mu, ms[i + 1]), True))
                        tc = var("t%d" % i) + (var("t%d" % (i + 1)) - var("t%d" % i)) * (mu - ms[i]) / (ms[i + 1] - ms[i])
                        up = cx.choose(2)
                        cx.assume((lt(tc, t), True) if up else (le(t, tc), True))
                    elif k == 2 * n - 1:
                        M, up = mu, 1
                        cx.assume((lt(ms[-1], mu), True))
                        T = t if cx.choose(2) else ZERO
                    else:
                        M, T, up = ms[-1], ZERO, 0
                    r = cx.call("h_tc_config_corrected", M, T, f0, ren, om, FC, CC, flat)
                    cx.equal(r[1], num(2 if up else 1), "corrected masses exactly in the deconfined phase")
                    cx.equal(r[0], corr(nf, nc) if up else start(nf, nc), "matching additive constant")
                    cx.equal(r[2], num(n), "reduced boundary")

                obs.append(Ob("C24.corrected.%s.%d" % (tag, n), corrected, Domain(d), tier="quick" if n == 1 or (nc, nf) == (3, (2, 1)) else "thorough"))
    lo, st = var("lo"), var("st")
    D = Domain({"lo": "real", "st": "pos", "e": ("-2/5", "2/5", "-1/2", "1/2")})
    for which in range(5):
        for n in (0, 1, 2, 5):

            def grid(cx, which=which, n=n):
                hi = lo + (num(n) + var("e")) * st
                r = cx.call("h_tc_grid", which, lo, hi, st, num("1/4"), num("1/4"), num("1/8"))
                cx.equal(r[0], num(n + 1), "number of points")
                for i in range(n + 1):
                    cx.equal(r[1 + i], lo + num(i) * st, "equally spaced points")

            obs.append(Ob("C24.grid.%d.%d" % (which, n), grid, D))
    obs.append(Ob("C24.pbase", lambda cx: cx.equal(cx.call("h_tc_pbase", lo, lo + 2 * st, st), lo, "first momentum"), D))
    return obs
