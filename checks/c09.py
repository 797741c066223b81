"""Thermal one-loop integrands against reference expressions: the general
kinematics directly, the special ones as limits of the reference."""
import loops
import spec
from util import *

TITLE = "thermal loop integrands"
L = "low_level::oneloop::thermal"

REF = {}
for n in ("tlog", "tlog_l", "tlog_t"):
    f = getattr(spec, n)
    REF[n] = lambda v, f=f: f(v["q"], v["om"], v["p"], v["en"], v["delta"])
    REF[n + "_same_mass"] = lambda v, f=f: f(v["q"], v["om"], v["p"], v["en"], ZERO)
    REF[n + "_zero_mass"] = lambda v, f=f: f(v["q"], v["om"], v["p"], v["q"], ZERO)


def obligations(env):
    A = Api(env.api)
    obs = []
    for l in loops.loops(A):

        def one(cx, l=l):
            l.compare(cx, cx.call(l.e["id"], *l.v.values()), l.ref(), l.e["sym"] + " equals the reference")

        for tag, dom in l.domains():
            obs.append(Ob("C09.%s%s" % (l.name, "." + tag if tag else ""), one, dom))
    for e in env.api.values():
        if e.get("kind") != "native" or e["mod"] != L or e["sym"] not in REF:
            continue
        ty = dict(e["args"])
        halves = [("", {})]
        if "C" in ty.values():
            if ty.get("m") == "C" or ty.get("m1") == "C" or ty.get("en") == "C":
                # complex masses/energies: off the branch cuts of the square roots
                halves = [("up", {n + "_i": UPPER for n in ty if ty[n] == "C"})]
                rest = [n for n in ty if ty[n] == "C" and n not in ("m", "m1", "m2", "en")]
                halves.append(("low", {n + "_i": UPPER if n in rest else LOWER for n in ty if ty[n] == "C"}))
                if rest:
                    halves.append(("mix", {n + "_i": LOWER if n == rest[0] else UPPER for n in ty if ty[n] == "C"}))
            else:
                halves = [("up", {"om_i": UPPER}), ("down", {"om_i": LOWER})]
                if ty.get("p") == "C":
                    halves += [(t + "." + u, {"om_i": a, "p_i": b}) for t, a in (("up", UPPER), ("down", LOWER)) for u, b in (("pup", UPPER), ("pdown", LOWER))]

        def closed(cx, e=e):
            v = {n: mkvar(n, t) for n, t in e["args"]}
            r = cx.call(e["id"], *[v[n] for n, _ in e["args"]])
            cx.equal(r, REF[e["sym"]](v), e["sym"] + " equals the reference")

        for tag, over in halves:
            obs.append(Ob("C09.%s%s" % (e["id"][2:], "." + tag if tag else ""), closed, edom(e, over)))
    return obs
