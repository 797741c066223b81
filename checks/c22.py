"""Critical temperature search and boundary post-processing."""
import build
import c21
from util import *

TITLE = "critical temperature and boundary post-processing"
environment = c21.environment


def obligations(env):
    obs = []
    for n in range(1, 9):
        ts, ds = [var("t%d" % i) for i in range(n)], [var("d%d" % i) for i in range(n)]
        d = Domain({x.a[0]: "real" for x in ts + ds})

        def crit(cx, ts=ts, ds=ds):
            r = cx.call("h_tc_critical", ts, ds)
            j = [i for i, x in enumerate(ts) if x is r]
            if not j:
                cx.equal(r, ts[0], "the result is one of the temperatures")
                return
            cx.equal(r, ts[j[0]], "the result is one of the temperatures")
            for k, x in enumerate(ds):
                if k != j[0]:
                    cx.holds(lt(x, ds[j[0]]) if k < j[0] else le(x, ds[j[0]]), "first temperature with the largest value")

        obs.append(Ob("C22.critical.%d" % n, crit, d, tier="quick" if n <= 5 else "thorough"))
    for n in range(0, 9):
        ms, ts = [var("m%d" % i) for i in range(n)], [var("t%d" % i) for i in range(n)]
        d = Domain({x.a[0]: "real" for x in ts + ms})
        for fn in ("h_tc_reduce", "h_tc_reduce2"):
            if n > 7 - (fn == "h_tc_reduce2"):
                continue

            def red(cx, fn=fn, ms=ms, ts=ts, n=n):
                # index of the first vanishing temperature
                k = cx.choose(n + 1)
                T = list(ts)
                for i in range(k):
                    cx.assume((eq(ts[i], ZERO), False))
                if k < n:
                    T[k] = ZERO
                r = cx.call(fn, [x for p in zip(ms, T) for x in p])
                cx.equal(r[0], num(k), "points before the first vanishing temperature")
                for i in range(k):
                    cx.equal(r[1 + 2 * i], ms[i], "chemical potential kept")
                    cx.equal(r[2 + 2 * i], T[i], "temperature kept")

            obs.append(Ob("C22.%s.%d" % ("cut" if fn == "h_tc_reduce" else "cut_twice", n), red, d, tier="quick" if n <= 5 else "thorough"))
    if c21.PRIVATE:
        for n in range(1, 13):
            ps = [var("p%d" % i) for i in range(n)]
            qs = [var("q%d" % i) for i in range(n)]
            mu = var("mu")
            d = Domain({x.a[0]: "real" for x in ps + qs + [mu]})

            def poly(cx, c):
                y, w = ZERO, ONE
                for x in c:
                    y, w = y + x * w, w * mu
                return y

            def plain(cx, ps=ps):
                cx.equal(cx.call("h_tc_poly", mu, ps), poly(cx, ps), "polynomial with the given coefficients")

            def ad(cx, ps=ps, qs=qs, n=n):
                r = cx.call("h_tc_poly_ad", mu, n, [x for p in zip(ps, qs) for x in p])
                cx.equal(r[0], poly(cx, ps), "value of the fitted polynomial")
                cx.equal(r[1], poly(cx, qs), "derivative of the fitted polynomial")

            obs.append(Ob("C22.polynomial.%d" % n, plain, d, tier="quick" if n <= 6 else "thorough"))
            obs.append(Ob("C22.polynomial_derivative.%d" % n, ad, d, tier="quick" if n <= 6 else "thorough"))
    return obs
