"""Derivative integrands are derivatives with respect to a squared mass."""
import loops
import spec
from util import *

TITLE = "mass derivatives"
L = "low_level::oneloop::thermal"
q, om, p, m, m1, m2, be = (var(x) for x in ("q", "om", "p", "m", "m1", "m2", "beta"))


def dm2(f, name):
    """derivative with respect to the square of the variable"""
    return t_.diff(f, name) / (2 * var(name))


def dm2c(f, name, ty):
    """the same for a complex mass: the functions are holomorphic in it, and the
    derivative of the implementation is taken along the real direction"""
    if ty != "C":
        return dm2(f, name)
    return t_.diff(f, name + "_r") / (2 * mkvar(name, "C"))


def first_pole(comp, om, q=q, m1=m1, m2=m2, p=p):
    """part of the two-mass integrand that carries the distribution of line 1"""
    e = spec.en(q, m1)
    d = spec.sq(m2) - spec.sq(m1)
    b = spec.bose(e, be) / e
    if comp == "":
        return b * (spec.tlog(q, om, p, e, d) + spec.tlog(q, -om, p, e, d)) * q / (16 * p * spec.PI2)
    if comp == "_l":
        h = (spec.tlog_l(q, om, p, e, d) + spec.tlog_l(q, -om, p, e, d)) / 2 - 4 * q * p * (om**2 + p**2 + d)
        return om**2 / (om**2 + p**2) * b * h * q / (32 * p**3 * spec.PI2)
    h = (spec.tlog_t(q, om, p, e, d) + spec.tlog_t(q, -om, p, e, d)) / 2 - 4 * q * p * (om**2 + p**2 + d)
    return -b * h * q / (64 * p**3 * spec.PI2)


M1, M2 = var("M1"), var("M2")
r1, r2 = t_.sqrt(M1), t_.sqrt(M2)


def general(comp, w, pp):
    """(integrand, its derivative up to a total derivative) in terms of squared masses"""
    f1 = first_pole(comp, w, q, r1, r2, pp)
    f = f1 + first_pole(comp, w, q, r2, r1, pp)
    return f, t_.diff(f, "M1") - t_.diff(f1 / (2 * q), "q")


def tadpole(comp):
    f = getattr(spec, "j_m%s_i" % comp)(q, r1, be)
    d = t_.diff(f, "M1") - t_.diff(f / (2 * q), "q")
    d2 = t_.diff(d, "M1")
    if comp == "_t":
        d2 = d2 - t_.diff(d / (2 * q), "q")
    return {"j": f, "d_j": d, "d2_j": d2}


def everything(A):
    """every derivative-type integrand, in all kinematics, at all masses"""
    for l in loops.loops(A):
        if l.kind[0] != "d":
            continue
        base = l.kind.split("_", 1)[1] if l.kind[1] == "_" else "d_j"
        bname = l.e["sym"].replace(l.kind + "_", base + "_", 1).replace("m_t_0_i", "m_0_t_i")
        b = next((x for x in loops.loops(A) if x.kin == l.kin and x.e["sym"] == bname and x.e["args"] == l.e["args"]), None)

        def one(cx, l=l, b=b, base=base):
            if l.kind[-1] == "j":
                s = tadpole(l.comp)
                f, d = s[base], s[l.kind]
            else:
                f, d = general(l.comp, l.v.get("om", om), l.v.get("p", p))
            at = {M: spec.sq(x) for M, x in zip((M1, M2), l.masses)}
            f, d = t_.subst(f, at), t_.subst(d, at)
            if b is not None:
                l.compare(cx, cx.call(b.e["id"], *b.v.values()), f, "the integrand that is differentiated")
            l.compare(cx, cx.call(l.e["id"], *l.v.values()), d, "derivative with respect to the first squared mass, up to a total derivative")

        for tag, dom in l.domains():
            yield Ob("C11.all.%s%s" % (l.name, "." + tag if tag else ""), one, dom)


def obligations(env):
    A = Api(env.api)
    obs = list(everything(A))
    for c in ("", "_l", "_t"):
        for cplx in (False, True):
            fi = A.fam.get((L, "i_m_m%s_i" % c), {})
            fd = A.fam.get((L, "d_i_m_m%s_i" % c), {})
            pick = lambda f: next((e for k, e in f.items() if (set(k) == {"R"} if not cplx else k == "CRR")), None)
            ei, ed = pick(fi), pick(fd)
            if ei is None or ed is None:
                continue

            def two(cx, ei=ei, ed=ed, c=c, cplx=cplx):
                w = mkvar("om", "C" if cplx else "R")
                i = cx.call(ei["id"], *mk_args(ei))
                d = cx.call(ed["id"], *mk_args(ed))
                f1 = first_pole(c, w)
                f2 = first_pole(c, w, q, m2, m1)
                cx.equal(i, f1 + f2, "the two poles")
                cx.equal(d, dm2(i, "m1") - t_.diff(f1 / (2 * q), "q"), "derivative with respect to the first squared mass, up to a total derivative")

            for tag, half in (("", None),) if not cplx else ((".up", UPPER), (".down", LOWER)):
                dom = edom(ed)
                if half:
                    dom = dom.extend({"om_i": half})
                obs.append(Ob("C11.d_i_m_m%s%s%s" % (c, ".C" if cplx else "", tag), two, dom, "thorough" if tag == ".down" else "quick"))
        for inst in ("R", "C"):
            j, dj, d2 = (A.fam.get((L, k % c), {}).get(inst) for k in ("j_m%s_i", "d_j_m%s_i", "d2_j_m%s_i"))
            if j is None or dj is None or d2 is None :
                continue

            def tad(cx, j=j, dj=dj, inst=inst):
                x = cx.call(j["id"], *mk_args(j))
                d = cx.call(dj["id"], *mk_args(dj))
                cx.equal(d, dm2c(x, "m", inst) - t_.diff(x / (2 * q), "q"), "tadpole: derivative up to a total derivative")

            def tad2(cx, dj=dj, d2=d2, c=c, inst=inst):
                d = cx.call(dj["id"], *mk_args(dj))
                dd = cx.call(d2["id"], *mk_args(d2))
                w = dm2c(d, "m", inst)
                if c == "_t":
                    w = w - t_.diff(d / (2 * q), "q")
                cx.equal(dd, w, "second derivative")

            tag = ".C" if inst == "C" else ""
            dom = edom(j) if not tag else edom(j, {"m_i": UPPER}).extend({"m_r": "pos"})
            obs.append(Ob("C11.d_j_m" + c + tag, tad, dom))
            obs.append(Ob("C11.d2_j_m" + c + tag, tad2, dom))
    return obs
