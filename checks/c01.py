"""C-linkage interface = native interface."""
from util import *

TITLE = "exported C functions"


def obligations(env):
    A = Api(env.api)
    obs = []
    for e in env.api.values():
        if e.get("kind") != "ffi":
            continue
        fn = e["sym"].split("__")[-1]
        cplx = fn == "complex"
        if cplx:
            fn = e["sym"].split("__")[-2]
        if e["mod"] == "consts":
            continue
        n = A.native(e["mod"], fn, cplx)
        if n is None and e["mod"].startswith("qcd::ghost"):  # re-export
            n = A.native(e["mod"].replace("qcd::", "ym::"), fn, cplx)
        if n is None and e["sym"].startswith("ym__oneloop__gluon__"):
            n = A.native("low_level::oneloop::gluon", "ym_" + fn, cplx)
        if n is None:
            obs.append(Ob("C01.%s" % e["sym"], missing(e["sym"]), edom(e)))
            continue
        obs.append(Ob("C01.%s" % e["sym"], mk(e, n), edom(e)))
    return obs


def missing(s):
    def fn(cx):
        raise fw.Inconclusive("no native counterpart for " + s)

    return fn


def mk(e, n):
    def fn(cx):
        a = mk_args(e)
        x = cx.call(e["id"], *a)
        y = cx.call(n["id"], *a)
        cx.same(x, y, e["sym"])

    return fn
