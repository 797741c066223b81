"""Special masses and exchange of the two lines."""
from util import *

TITLE = "special-mass integrands"
L = "low_level::oneloop::thermal"
KIN = {"": {"om", "p"}, "::zero_matsubara": {"p"}, "::zero_momentum": {"om"}}
p_, om_ = var("p"), var("om")
m, m1, m2, q = var("m"), var("m1"), var("m2"), var("q")


def pairs():
    """(special function, its masses, general function, its masses)"""
    for k in ("i", "d_i"):
        for c in ("", "_l", "_t"):
            g = "%s_m_m%s_i" % (k, c)
            yield g + "_same_mass", {"m": m}, g, {"m1": m, "m2": m}, "equal masses"
            yield "%s_m_0%s_i" % (k, c), {"m": m}, g, {"m1": m, "m2": ZERO}, "one massless line"
            yield "%s_0_0%s_i" % (k, c), {}, g, {"m1": ZERO, "m2": ZERO}, "massless lines"
            yield "%s_m_0%s_i" % (k, c), {"m": ZERO}, "%s_0_0%s_i" % (k, c), {}, "one massless line, other mass to zero"
    yield "d_i_m_t_0_i", {"m": m}, "d_i_m_0_t_i", {"m": m}, "both names of one massless line"
    for k in ("j", "d_j", "d2_j"):
        for c in ("", "_l", "_t"):
            yield "%s_0%s_i" % (k, c), {}, "%s_m%s_i" % (k, c), {"m": ZERO}, "massless tadpole"
    for c in ("", "_l", "_t"):
        yield "tlog%s_same_mass" % c, {}, "tlog" + c, {"delta": ZERO}, "equal masses"
        yield "tlog%s_zero_mass" % c, {}, "tlog%s_same_mass" % c, {"en": q}, "massless lines"


def obligations(env):
    A = Api(env.api)
    obs = []
    for kin in KIN:
        for sp, a, ge, b, why in pairs():
            for cplx in (False, True):
                es, eg = A.native(L + kin, sp, cplx), A.native(L + kin, ge, cplx)
                if es is None or eg is None:
                    continue
                if cplx:
                    # complex frequency with real masses
                    fs, fg = A.fam[(L + kin, sp)], A.fam[(L + kin, ge)]
                    pick = lambda f: next((e for k, e in f.items() if k in ("C", "CR", "CRR") and all(t == "R" or n == "om" for n, t in e["args"])), None)
                    es, eg = pick(fs), pick(fg)
                    if es is None or eg is None:
                        # parameters that take the type of the frequency
                        continue
                for tag, half in (("", None),) if not cplx else ((".up", UPPER), (".down", LOWER)):

                    def fn(cx, es=es, eg=eg, a=a, b=b, why=why):
                        x = cx.call(es["id"], *mk_args(es, None, None, a))
                        y = cx.call(eg["id"], *mk_args(eg, None, None, b))
                        cx.equal(x, y, why)

                    dom = edom(eg, **{"m": "pos"})
                    if half:
                        dom = dom.extend({"om_r": "real", "om_i": half})
                    obs.append(Ob("C10.%s%s.%s%s%s" % (kin[2:] or "general", "", es["id"].split("__")[-1], "" if ge.split("_i")[0] in sp else "", "." + why.replace(" ", "_").replace(",", "") + tag), fn, dom))
        # complex masses (and frequency, where it is one)
        for sp, a, ge, b, why in pairs():
            allc = lambda f: next((e for e in f.values() if [n for n, t in e["args"] if n in ("m", "m1", "m2")] and all(t == "C" for n, t in e["args"] if n in ("m", "m1", "m2"))), None)
            anyc = lambda f: allc(f) or next((e for e in f.values() if not any(n in ("m", "m1", "m2") for n, t in e["args"]) and (dict(e["args"]).get("om", "C") == "C")), None)
            eg, es = allc(A.fam.get((L + kin, ge), {})), anyc(A.fam.get((L + kin, sp), {}))
            if es is None or eg is None:
                continue
            wc = all(dict(e["args"]).get("om") == "C" for e in (es, eg))
            for tag, half in (("up", UPPER), ("down", LOWER)):
                if tag == "down" and not wc:
                    continue

                def fnc(cx, es=es, eg=eg, a=a, b=b, why=why, wc=wc):
                    ov = {"p": p_}
                    if not wc:
                        ov["om"] = om_
                    mc = lambda d: {n: mkvar(v.a[0], "C") if v.op == "var" and v.a[0] in ("m", "m1", "m2") else v for n, v in d.items()}
                    x = cx.call(es["id"], *mk_args(es, None, None, dict(ov, **mc(a))))
                    y = cx.call(eg["id"], *mk_args(eg, None, None, dict(ov, **mc(b))))
                    cx.equal(x, y, why)

                dom = Domain({"q": "pos", "p": "pos", "om": "pos", "beta": "pos", "m_r": "pos", "m_i": UPPER, "om_r": "real", "om_i": half})
                obs.append(Ob("C10.%s.%s.masses.%s.%s" % (kin[2:] or "general", es["id"].split("__")[-1], why.replace(" ", "_").replace(",", ""), tag), fnc, dom))
        for c in ("", "_l", "_t"):
            for cplx in (False, True):
                f = A.fam.get((L + kin, "i_m_m%s_i" % c), {})
                e = next((e for k, e in f.items() if (set(k) == {"R"} if not cplx else k in ("CRR", "CR") and dict(e["args"]).get("om") == "C")), None)
                if e is None:
                    continue

                def sym(cx, e=e):
                    x = cx.call(e["id"], *mk_args(e))
                    y = cx.call(e["id"], *mk_args(e, None, None, {"m1": m2, "m2": m1}))
                    cx.equal(x, y, "exchange of the two lines")

                for tag, half in (("", None),) if not cplx else ((".up", UPPER), (".down", LOWER)):
                    dom = edom(e)
                    if half:
                        dom = dom.extend({"om_i": half})
                    obs.append(Ob("C10.%s.symmetric%s%s%s" % (kin[2:] or "general", c, ".C" if cplx else "", tag), sym, dom))
            # complex masses
            e = next((e for e in A.fam.get((L + kin, "i_m_m%s_i" % c), {}).values() if all(dict(e["args"])[n] == "C" for n in ("m1", "m2"))), None)
            if e is not None:

                def symc(cx, e=e):
                    x = cx.call(e["id"], *mk_args(e))
                    y = cx.call(e["id"], *mk_args(e, None, None, {"m1": mkvar("m2", "C"), "m2": mkvar("m1", "C")}))
                    cx.equal(x, y, "exchange of the two lines")

                for tag, half in (("up", UPPER), ("down", LOWER)):
                    dom = edom(e, {"m1_i": UPPER, "m2_i": half}).extend({"m1_r": "pos", "m2_r": "pos"})
                    if dict(e["args"]).get("om") == "C":
                        dom = dom.extend({"om_i": UPPER})
                    sides = [("", dom)]
                    if kin.endswith("matsubara") and tag == "up":
                        # both signs of the difference (its zeros are the limit of either)
                        d = t_.im(mkvar("m2", "C") * mkvar("m2", "C") - mkvar("m1", "C") * mkvar("m1", "C"))
                        sides = [(".lt", dom.extend(facts=[(lt(d, ZERO), True)])), (".gt", dom.extend(facts=[(lt(ZERO, d), True)]))]
                    for sg, dd in sides:
                        obs.append(Ob("C10.%s.symmetric%s.masses.%s%s" % (kin[2:] or "general", c, tag, sg), symc, dd))
    return obs
