"""Helpers shared by the property definitions."""
import fw
import term as t_
from alg import BIG, Domain
from fw import Ob
from symex import Cond
from term import I, ONE, PI, T, ZERO, num, tonum, var

POS = {"q", "p", "m", "m1", "m2", "mq", "beta", "s", "en"}


def lt(a, b):
    return Cond("lt", tonum(a), tonum(b))


def le(a, b):
    return Cond("le", tonum(a), tonum(b))


def eq(a, b):
    return Cond("eq", tonum(a), tonum(b))


def mkvar(name, ty):
    if ty == "C":
        return var(name + "_r") + I * var(name + "_i")
    return var(name)


def dom_for(names_types, **over):
    """default domain for wrapper arguments"""
    r = {}
    for nm, ty in names_types:
        if ty == "C":
            r[nm + "_r"] = ("1/10", 3, -(BIG), BIG) if nm in POS else "real"
            r[nm + "_i"] = ("1/10", 2, -(BIG), BIG)
        elif ty == "R":
            r[nm] = "pos" if nm in POS or nm == "om" else "real"
    r.update(over)
    return Domain(r)


def inst_of(api, base, kinds):
    """wrapper of `base` whose generic instantiation fits; kinds in R C CR"""
    for s in kinds:
        for k in (base + "_" + s, base):
            if k in api:
                return k
    return None


class Api:
    def __init__(self, api):
        self.api = api
        self.fam = {}
        for e in api.values():
            if e.get("kind") == "native":
                self.fam.setdefault((e["mod"], e["sym"]), {})[e["inst"]] = e

    def native(self, mod, fn, cplx=False):
        f = self.fam.get((mod, fn))
        if f is None:
            return None
        for k, e in f.items():
            if not cplx and set(k) <= {"R"}:
                return e
            if cplx and k and set(k) == {"C"}:
                return e
        return f.get("")

    def fid(self, mod, fn, cplx=False):
        e = self.native(mod, fn, cplx)
        return None if e is None else e["id"]


# argument values used for field contents: (nc, gluon mass, [(nf, mq)])
def cfgvars(k, pre="c"):
    r = {}
    for i in range(k):
        r["%smq%d" % (pre, i)] = "pos"
    r["%smg" % pre] = "pos"
    return r


def mk_args(e, cfg=None, meth=None, over=None):
    """symbolic arguments for a wrapper, by parameter name"""
    over = over or {}
    a = []
    for nm, ty in e["args"]:
        if nm in over:
            a.append(over[nm])
        elif ty in ("R", "C"):
            a.append(mkvar(nm, ty))
        elif ty == "M":
            a.append(meth or (var("mtol"), 37))
        elif ty == "F":
            a.append(cfg or CFG1)
        elif ty == "U":
            a.append(over.get(nm, 3))
    return a


CFG1 = (4, var("cmg"), [(2, var("cmq0")), (1, var("cmq1"))])
CFGD = {"cmg": "pos", "cmq0": "pos", "cmq1": "pos"}
METHD = {"mtol": ("1/100", "1/10", 0, 1)}


def edom(e, extra=None, **over):
    """default domain of a wrapper's arguments"""
    d = dom_for([(n, t) for n, t in e["args"] if t in "RC"], **over)
    x = {}
    for n, t in e["args"]:
        if t == "F":
            x.update(CFGD)
        if t == "M":
            x.update(METHD)
    x.update(extra or {})
    return d.extend(x)


class Fx:
    """call library functions by (module, name) with named arguments"""

    def __init__(self, cx, A):
        self.cx, self.A = cx, A

    def spec(self, mod, fn, cplx, kw):
        e = self.A.native(mod, fn, cplx)
        if e is None:
            raise fw.Inconclusive("no entry point %s::%s" % (mod, fn))
        kw = dict(kw)
        meth, cfg = kw.pop("meth", None), kw.pop("cfg", None)
        return (e["id"],) + tuple(mk_args(e, cfg, meth, kw))

    def __call__(self, mod, fn, cplx=False, pre=(), **kw):
        return self.cx.call(*self.spec(mod, fn, cplx, kw), pre=pre)


SETNC, SETNF, SETMQ, SETTOL, SETIT, SETREG = (
    "h_x_set_number_of_colors",
    "h_x_set_number_of_fermions",
    "h_x_set_default_quark_mass",
    "h_x_set_default_tol_integral",
    "h_x_set_default_max_iter_integral",
    "h_x_set_matsubara_reg",
)

NC, NF = var("snc"), var("snf")
COLORS = {"snc": ("2", 9, 1, 1000)}
FLAVORS = {"snf": ("2", 9, 0, 1000)}


def any_colors(obs, flavors=False):
    """let the calls on quarks run under any number of colours (and flavours)"""
    for o in obs:
        if "quark" in o.id or "qcd" in o.id:
            o.pre = ((SETNC, NC),) + (((SETNF, NF),) if flavors else ())
            o.dom = o.dom.extend(dict(COLORS, **(FLAVORS if flavors else {})), ints=["snc"] + (["snf"] if flavors else []))
    return obs


UPPER = ("1/10", 2, 0, BIG)
LOWER = (-2, "-1/10", -(BIG), 0)

TAU = t_.TAU


def quad(cx, f, a, b, tol, it, rule=2):
    """reference quadrature of f(tau) over (a, b): adaptive Gauss-Kronrod 7-15
    with the given tolerance and iteration budget"""
    a, b = tonum(a), tonum(b)
    scoped = not (a.op == "num" and b.op == "num")
    before = list(cx.conds)
    iv = [c for c in ((lt(a, TAU), True), (lt(TAU, b), True)) if not any(k.key() == c[0].key() for k, _ in before)]
    cx.assume(*iv)
    v = f(TAU)
    if scoped:
        # facts about the integration variable hold inside this integral only
        keep = {k.key() for k, _ in before}
        cx.conds = [(k, p) for k, p in cx.conds if k.key() in keep or not t_.free_tau([k.a, k.b])]
    cx._pr = None
    return t_.mkint(v, a, b, ("tag%d" % rule, tonum(it), tonum(tol)) if rule > 1 else ("tag%d" % rule, tonum(it)))


def halfline(cx, f, tol, it, rule=2):
    """quadrature over (0, oo) after q = (1 - t)/t"""
    return quad(cx, lambda t: f((1 - t) / t) / (t * t), 0, 1, tol, it, rule)


# ------------------------------------------------- integrated thermal functions
TH_L = "low_level::oneloop::thermal::"
TOL0, IT0 = t_.num("1e-10"), 50
REG0 = t_.num("1e-5")
TOL8 = t_.num("1e-8")


def integrand_of(A, mod, fn, e):
    """the integrand an integrated thermal function is named after, and whether
    it is one of those evaluated at a small frequency; None if there is none"""
    base = fn[: -len("_w_method")] if fn.endswith("_w_method") else fn
    kin = mod[len(TH_L):].split("::")[1:] or ["general"]
    reg = kin == ["zero_matsubara"] and "gluon" in mod
    imod = TH_L + "gluon" if reg else mod
    ty = dict(e["args"])
    ei = None
    fam = A.fam.get((imod, base + "_i"), {})
    for f in fam.values():
        ti = dict(f["args"])
        if all(ti[n] == ty.get(n, "R") for n in ti):
            ei = f
    if ei is None:
        # the momentum of the integrand follows the frequency's type
        for f in fam.values():
            if dict(f["args"]).get("om") == ty.get("om"):
                ei = f
    if ei is None or any(dict(ei["args"])[n] != ty.get(n, "R") for n in dict(ei["args"])):
        return None, reg
    return ei, reg


def sea(cx, m, mu):
    """which side of the Fermi surface; True when there is no matter"""
    k = cx.choose(3)
    if k == 0:
        cx.assume((lt(mu, m), True), (lt(-m, mu), True))
    else:
        cx.assume((le(mu, m), False) if k == 1 else (lt(mu, -m), True))
    return k == 0


def integral_of(cx, ei, reg, zt, empty, over, pre, tol, it, rule, om=REG0, real=False):
    """quadrature of an integrand, over the Fermi sea or the half line"""

    def f(q):
        kw = dict(over, q=q)
        if reg:
            kw["om"] = om
        v = cx.call(ei["id"], *mk_args(ei, None, None, kw), pre=[p for p in pre if p[0] not in (SETTOL, SETIT, SETREG)])
        return t_.re(v) if real else v

    if zt and empty:
        return ZERO
    if zt:
        m, mu = over.get("mq", var("mq")), over.get("mu", var("mu"))
        return quad(cx, f, 0, t_.sqrt(mu * mu - m * m), tol, it, rule)
    return halfline(cx, f, tol, it, rule)
