"""Numeric stand-in for the adaptive Gauss-Kronrod rule (G7K15, absolute
tolerance), used only to compare the encoding with native runs."""
import cmath
import math

import term as t_
from term import T

XK = [0.991455371120812639206854697526329, 0.949107912342758524526189684047851, 0.864864423359769072789712788640926, 0.741531185599394439863864773280788, 0.586087235467691130294144691693013, 0.405845151377397166906606412076961, 0.207784955007898467600689403773245, 0.0]
WK = [0.022935322010529224963732008058970, 0.063092092629978553290700663189204, 0.104790010322250183839876322541518, 0.140653259715525918745189590510238, 0.169004726639267902826583426598550, 0.190350578064785409913256402421014, 0.204432940075298892414161999234649, 0.209482141084727828012999174891714]
WG = [0, 0.129484966168869693270611432679082, 0, 0.279705391489276667901467771423780, 0, 0.381830050505118944950369775488975, 0, 0.417959183673469387755102040816327]


def _exp(z):
    if z.real > 700:
        return complex(math.inf, 0)
    return cmath.exp(z)


def _div(a, b):
    if b.real == math.inf or b.real == -math.inf:
        return 0j
    if b == 0:
        return complex(math.nan, math.nan)
    return a / b


def _ln(z):
    return cmath.log(z) if z != 0 else complex(-math.inf, 0)


def compile_fn(f, env, memo):
    """python function of tau for the integrand f; everything not depending on
    tau is evaluated once"""
    dep = {}
    for u in t_.subterms([f]):
        dep[u.id] = (u.op == "var" and u.a[0] == "tau!") or any(dep[x.id] for x in u.a if isinstance(x, T))
    lines, name, consts = [], {}, {}
    import alg

    def const(u):
        k = "c%d" % len(consts)
        v = t_.evalmp(u, env, alg.MP, memo)
        consts[k] = complex(v)
        return k

    for u in t_.subterms([f]):
        if not dep[u.id]:
            continue
        if u.op == "var":
            name[u.id] = "t"
            continue
        a = []
        for x in u.a:
            if isinstance(x, T):
                if x.id not in name:
                    name[x.id] = const(x)
                a.append(name[x.id])
        nm = "v%d" % len(lines)
        e = {"add": "{0}+{1}", "sub": "{0}-{1}", "mul": "{0}*{1}", "div": "_div({0},{1})", "neg": "-{0}", "ln": "_ln({0})", "exp": "_exp({0})", "sqrt": "_sqrt({0})", "re": "complex({0}.real)", "im": "complex({0}.imag)", "abs": "complex(abs({0}))"}.get(u.op)
        if e is None:
            raise NotImplementedError(u.op)
        lines.append(" %s=%s" % (nm, e.format(*a)))
        name[u.id] = nm
    if f.id not in name:
        c = const(f)
        lines.append(" v=%s" % c)
        name[f.id] = "v"
    g = {"_div": _div, "_exp": _exp, "_ln": _ln, "_sqrt": cmath.sqrt}
    g.update(consts)
    exec("def f(t):\n" + "\n".join(lines) + "\n return " + name[f.id], g)
    return g["f"]


def integrate(f, lo, hi, tol, depth, budget=12000):
    S = [(lo, hi, tol, depth)]
    tot = 0j
    n = 0
    while S:
        a, b, tl, d = S.pop()
        c, h = (a + b) / 2, (b - a) / 2
        G = K = 0j
        for x, wk, wg in zip(XK, WK, WG):
            for sx in (-1, 1) if x else (1,):
                y = f(complex(c + sx * h * x))
                K += wk * y
                G += wg * y
        n += 15
        G, K = G * h, K * h
        e = G - K
        if max(abs(e.real), abs(e.imag)) <= tl or a == b or d == 0 or c <= a or c >= b:
            tot += K
        else:
            tl /= math.sqrt(2)
            S.append((a, c, tl, d - 1))
            S.append((c, b, tl, d - 1))
        if tot != tot or n > budget:
            raise OverflowError("quadrature budget")
    return tot
