"""Field content of the QCD gluon functions."""
from util import *

TITLE = "field content"
ASSUMPTIONS = ["field configurations of up to three quark families with flavour numbers up to 3; masses and kinematics symbolic"]
M = ("cmg", "cmq0", "cmq1")
MG, A0, A1 = var("cmg"), var("cmq0"), var("cmq1")


def families(api):
    """(entry, kind) for every *_w_field_config entry point"""
    for e in api.values():
        if e.get("kind") == "native" and any(t == "F" for _, t in e["args"]) and e["inst"] in ("R", "RR", "", "C", "CR"):
            yield e


def ymcounterpart(e):
    """Yang-Mills function the empty field content has to reproduce"""
    fn = e["sym"].replace("_w_field_config", "").replace("_crossed", "")
    mod = e["mod"].replace("qcd::", "ym::")
    return mod, fn


def args(e, cfg, **kw):
    return (e["id"],) + tuple(mk_args(e, cfg, None, kw))


def kin(e):
    """squared momentum over squared gluon mass"""
    n = [x for x, _ in e["args"]]
    if "s" in n:
        return None
    r = ZERO
    for nm, ty in e["args"]:
        if nm in ("om", "p"):
            v = mkvar(nm, ty)
            r = r + v * v
    return r


def obligations(env):
    A = Api(env.api)
    obs = []
    for e in families(env.api):
        cplx = any(t == "C" for _, t in e["args"])
        dom = edom(e)
        if cplx:
            dom = dom.extend({n + "_i": UPPER for n, t in e["args"] if t == "C"})
        inv = "_inv" in e["sym"]
        zt = "zero_temp" in e["sym"]

        def empty(cx, e=e, cplx=cplx, zt=zt):
            x = cx.call(*args(e, (3, MG, [])))
            F = Fx(cx, A)
            mod, fn = ymcounterpart(e)
            if kin(e) is None:
                y = F(mod, fn, cplx, **{n: mkvar(n, t) for n, t in e["args"] if t != "F"})
            elif zt:
                fn = fn.replace("_l_", "_").replace("_t_", "_").replace("_zero_temp", "")
                p2 = kin(e)
                y = F("ym::gluon", fn, cplx or "C" in str(e["ret"]), s=p2 / (MG * MG), f0=var("f0"))
                if "propagator" in fn:
                    y = y / (MG * MG)
            else:
                y = F(mod, fn, cplx, m=MG, **{n: mkvar(n, t) for n, t in e["args"] if t != "F" and n != "mu"})
            cx.equal(x, y, "no quarks: Yang-Mills")

        obs.append(Ob("C05.empty." + e["id"][2:], empty, dom))
        if not inv:
            continue

        def zero(cx, e=e):
            cx.equal(cx.call(*args(e, (4, MG, [(2, A0), (0, A1)]))), cx.call(*args(e, (4, MG, [(2, A0)]))), "nf = 0 contributes nothing")

        def perm(cx, e=e):
            cx.equal(cx.call(*args(e, (4, MG, [(2, A0), (1, A1)]))), cx.call(*args(e, (4, MG, [(1, A1), (2, A0)]))), "order of the families")

        def split(cx, e=e):
            cx.equal(cx.call(*args(e, (4, MG, [(3, A0)]))), cx.call(*args(e, (4, MG, [(1, A0), (2, A0)]))), "splitting a degenerate family")

        def addit(cx, e=e):
            v = cx.call(*args(e, (4, MG, [])))
            a = cx.call(*args(e, (4, MG, [(2, A0)])))
            b = cx.call(*args(e, (4, MG, [(1, A1)])))
            c = cx.call(*args(e, (4, MG, [(2, A0), (1, A1)])))
            cx.equal(c - v, (a - v) + (b - v), "quark contributions add up")

        def ratio(cx, e=e):
            v = cx.call(*args(e, (3, MG, [])))
            a = cx.call(*args(e, (3, MG, [(1, A0)])))
            b = cx.call(*args(e, (5, MG, [(3, A0)])))
            cx.equal(b - v, (a - v) * num(9) / num(5), "proportional to nf/nc")

        for nm, fn in (("zero", zero), ("order", perm), ("split", split), ("additive", addit), ("ratio", ratio)):
            obs.append(Ob("C05.%s.%s" % (nm, e["id"][2:]), fn, dom))

    # single-mass functions with global settings = one-family configuration
    for e in families(env.api):
        base = e["sym"].replace("_w_field_config", "")
        cplx = any(t == "C" for _, t in e["args"])
        b = A.native(e["mod"], base, cplx)
        if b is None:
            continue
        dom = edom(e)
        if cplx:
            dom = dom.extend({n + "_i": UPPER for n, t in e["args"] if t == "C"})
        for nc, nf in ((3, 1), (5, 2)):

            def single(cx, e=e, b=b, nc=nc, nf=nf):
                pre = [(SETNC, nc), (SETNF, nf)]
                over = {"mq": A0 / MG if kin(e) is None else A0, "m": MG}
                x = cx.call(b["id"], *mk_args(b, None, None, over), pre=pre)
                y = cx.call(*args(e, (nc, MG, [(nf, A0)])), pre=pre)
                cx.equal(x, y, "one family = global settings")

            obs.append(Ob("C05.single%d%d.%s" % (nc, nf, e["id"][2:]), single, dom))
    return obs
