"""Explicit field configurations: independent of settings and of construction."""
from util import *

TITLE = "field configurations"
ASSUMPTIONS = ["the configuration evaluated before has one family, otherwise arbitrary, and the same kinematics", "field configurations of two quark families with fixed flavour numbers; number of colours between 2 and 9 with symbolic settings; masses and kinematics symbolic"]
MG, A0, A1 = var("cmg"), var("cmq0"), var("cmq1")


def obligations(env):
    A = Api(env.api)
    obs = []
    for e in env.api.values():
        if e.get("kind") != "native" or not any(t == "F" for _, t in e["args"]):
            continue
        if e["inst"] not in ("R", "RR", "", "C", "CR"):
            continue
        dom = edom(e)
        if any(t == "C" for _, t in e["args"]):
            dom = dom.extend({n + "_i": UPPER for n, t in e["args"] if t == "C"})
        d2 = dom.extend({"smq": "pos", "snc": ("2", 9, 1, 1000), "snf": ("0", 9, 0, 1000)}, ints=["snc", "snf"])

        def glob(cx, e=e):
            a = (e["id"],) + tuple(mk_args(e))
            x = cx.call(*a)
            y = cx.call(*a, pre=[(SETNC, var("snc")), (SETNF, var("snf")), (SETMQ, var("smq"))])
            cx.equal(x, y, "independent of the global settings")

        obs.append(Ob("C06.settings." + e["id"][2:], glob, d2))

        def hist(cx, e=e):
            a = (e["id"],) + tuple(mk_args(e))
            old = (e["id"],) + tuple(mk_args(e, (var("hnc"), var("hmg"), [(var("hnf"), var("hmq"))])))
            x = cx.call(*a)
            y = cx.seq([old, a])[-1]
            cx.equal(x, y, "independent of the configurations evaluated before")

        d3 = dom.extend({"hmq": "pos", "hmg": "pos", "hnc": ("2", 9, 1, 1000), "hnf": ("0", 9, 0, 1000)}, ints=["hnc", "hnf"])
        obs.append(Ob("C06.history." + e["id"][2:], hist, d3))
    for e in env.api.values():
        if e.get("kind") != "extra" or not e["id"].startswith("h_mut_"):
            continue
        base = env.api.get("h_" + e["id"][len("h_mut_"):])
        if base is None:
            continue
        dom = edom(e)
        cfgs = [
            ("all", (3, var("dmg"), [(1, var("dmq0"))]), CFG1),
            ("colors", (3,) + CFG1[1:], CFG1),
            ("mass", (4, var("dmg"), CFG1[2]), CFG1),
            ("flavors", (4, MG, [(1, A0), (1, A1)]), CFG1),
            ("fewer", CFG1, (4, MG, [(2, A0)])),
        ]
        for nm, c0, c1 in cfgs:

            def mut(cx, e=e, base=base, c0=c0, c1=c1):
                x = cx.call(e["id"], *mk_args(e, None, None, {"cfg0": c0, "config": c1}))
                y = cx.call(base["id"], *mk_args(base, c1))
                cx.equal(x, y, "modified configuration = fresh configuration")

            obs.append(Ob("C06.modified.%s.%s" % (nm, e["id"][6:]), mut, dom.extend({"dmg": "pos", "dmq0": "pos"})))
    return obs
