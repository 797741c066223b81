"""Classification of points of the phase diagram."""
import build
import fw
from util import *

TITLE = "phase boundary classification"
PRIVATE = True


def environment():
    global PRIVATE
    prog, lib, api, PRIVATE = build.build_tc("vtc", "lib.rs", "lib_tail.rs", ("private",))
    return fw.Env(prog, lib, api)


def obligations(env):
    obs = []
    mu, t = var("mu"), var("t")
    for n in (1, 2, 3, 4, 5, 6):
        for start in ("origin", "positive"):
            for tail in ("none", "zero", "beyond"):
                R = {"mu": "real", "t": "pos"}
                if start == "positive":
                    R["m0"] = "pos"
                for i in range(1, n):
                    R["d%d" % i] = ("1/10", "3/2", 0, 1000)
                for i in range(n):
                    R["t%d" % i] = ("1/10", 3, 0, 1000)
                if tail != "none":
                    R["dz"] = ("1/10", 1, 0, 1000)
                if tail == "beyond":
                    R["dy"], R["ty"] = ("1/10", 1, 0, 1000), ("1/10", 3, 0, 1000)
                d = Domain(R)

                def fn(cx, n=n, start=start, tail=tail):
                    ms = [ZERO if start == "origin" else var("m0")]
                    for i in range(1, n):
                        ms.append(ms[-1] + var("d%d" % i))
                    ts = [var("t%d" % i) for i in range(n)]
                    pb = list(zip(ms, ts))
                    if tail != "none":
                        z = ms[-1] + var("dz")
                        pb.append((z, ZERO))
                        if tail == "beyond":
                            # points after the first vanishing one are ignored
                            pb.append((z + var("dy"), var("ty")))
                    flat = [x for p in pb for x in p]
                    # where the chemical potential lies
                    k = cx.choose(3 * n + 1)
                    M = mu
                    if k == 3 * n:
                        cx.assume((lt(mu, ms[0]), True))
                        r = cx.call("h_tc_deconfined", mu, ZERO if cx.choose(2) else t, flat, panics=True)
                        if r != "panic":
                            cx.holds(lt(ms[0], mu), "no extrapolation below the boundary")
                        return
                    i, w = divmod(k, 3)
                    if w == 0:
                        M, tc = ms[i], ts[i]  # on a boundary point
                    elif w == 1:
                        cx.assume((lt(ms[i], mu), True))
                        if i + 1 < n:
                            cx.assume((lt(mu, ms[i + 1]), True))
                            tc = ts[i] + (ts[i + 1] - ts[i]) * (mu - ms[i]) / (ms[i + 1] - ms[i])
                        else:
                            tc = None  # beyond the last point
                    else:
                        # zero temperature
                        r = None
                        if i == 0:
                            M = ms[0]
                        else:
                            cx.assume((lt(ms[i - 1], mu), True))
                            cx.assume((le(mu, ms[i]), True))
                        r = cx.call("h_tc_deconfined", M, ZERO, flat)
                        cx.equal(r, ZERO, "zero temperature up to the last chemical potential is confined")
                        if i == n - 1:
                            r = cx.call("h_tc_deconfined", ms[i] + t, ZERO, flat)
                            cx.equal(r, ONE, "zero temperature beyond the last chemical potential is deconfined")
                        return
                    r = cx.call("h_tc_deconfined", M, t, flat)
                    if tc is None:
                        cx.equal(r, ONE, "deconfined beyond the boundary")
                    elif r is ONE:
                        cx.holds(lt(tc, t), "deconfined points lie above the boundary")
                    elif r is ZERO:
                        cx.holds(le(t, tc), "confined points lie on or below the boundary")
                    else:
                        cx.equal(r, ZERO, "classification is yes or no")

                obs.append(Ob("C21.classify.%d.%s.%s" % (n, start, tail), fn, d, tier="quick" if n <= 4 else "thorough"))
    return obs
