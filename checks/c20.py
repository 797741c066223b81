"""Root finder, residues and spectral functions for arbitrary functions."""
from util import *

TITLE = "numerical utilities"


def nrm(z, ty):
    if ty == "R":
        return None
    a, b = t_.re(z), t_.im(z)
    return a * a + b * b


def below(cx, v, ty, tol, yes):
    """|v| < tol, or its negation"""
    if ty == "C":
        cx.assume((lt(t_.sqrt(nrm(v, ty)), tol), yes))
    elif yes:
        cx.assume((lt(v, tol), True), (lt(-tol, v), True))
    elif cx.choose(2) == 0:
        cx.assume((lt(v, tol), False), (lt(v, ZERO), False))
    else:
        cx.assume((lt(-tol, v), False), (lt(v, ZERO), True))


def obligations(env):
    obs = []
    for ty in "RC":
        w = 1 if ty == "R" else 2

        def doms(n):
            r = {"tol": ("1/10", 1, 0, BIG)}
            for k in ["z0", "z1"] + ["v%d" % i for i in range(n)]:
                if ty == "R":
                    r[k] = "real"
                else:
                    r[k + "_r"] = r[k + "_i"] = "real"
            return Domain(r)

        def value(k, ty=ty):
            return mkvar(k, ty)

        def secant(cx, it=3, ty=ty, value=value, w=w):
            tol = var("tol")
            z = [value("z0"), value("z1")]
            v = [value("v%d" % i) for i in range(it + 2)]
            tr = lambda x: [x] if w == 1 else [t_.re(x), t_.im(x)]
            cx.assume((eq(z[0], z[1]), False) if w == 1 else (eq(nrm(z[0] - z[1], ty), ZERO), False))
            j = cx.choose(it + 1)  # the iteration that meets the tolerance; it: none does
            for k in range(min(j, it)):
                below(cx, v[k + 1], ty, tol, False)
            if j < it:
                below(cx, v[j + 1], ty, tol, True)
            steps = min(j, it)
            for k in range(steps):
                # values that repeat exactly have no secant
                cx.assume((eq(v[k], v[k + 1]), False) if w == 1 else (eq(nrm(v[k] - v[k + 1], ty), ZERO), False))
            for k in range(steps):
                z.append(z[-1] - v[k + 1] * (z[-1] - z[-2]) / (v[k + 1] - v[k]))
            r = cx.call("h_e_find_root_" + ty, value("z0"), value("z1"), tol, it, v)
            cx.equal(r[1], num(1 if j < it else 0), "succeeds exactly when the tolerance is met within the budget")
            if j < it:
                want = tr(z[j + 1]) + tr(v[j + 1])
                for i, x in enumerate(want):
                    cx.equal(r[2 + i], x, "returned point and value")
                cx.equal(r[0], num(2 + steps), "number of evaluations")
            for k in range(steps):
                for i, x in enumerate(tr(z[2 + k])):
                    cx.equal(r[2 + 2 * w + k * w + i], x, "evaluation points follow the secant iteration")

        for it in (0, 1, 2, 3, 4):
            if it == 4 and ty == "C":
                continue
            obs.append(Ob("C20.secant.%s.%d" % (ty, it), lambda cx, it=it, f=secant: f(cx, it), doms(it + 2), "quick" if it < 4 else "thorough"))

        def badguess(cx, ty=ty, value=value):
            r = cx.seq([("h_e_find_root_" + ty, value("z0"), value("z0"), var("tol"), 2, [value("v%d" % i) for i in range(4)])], panics=True)
            if r[-1] == "panic":
                cx.asserted("refused")
            else:
                cx.never("equal guesses are refused")

        def badtol(cx, ty=ty, value=value):
            cx.assume((lt(ZERO, var("tol")), False))
            r = cx.seq([("h_e_find_root_" + ty, value("z0"), value("z1"), var("tol"), 2, [value("v%d" % i) for i in range(4)])], panics=True)
            if r[-1] == "panic":
                cx.asserted("refused")
            else:
                cx.never("a tolerance that is not positive is refused")

        obs.append(Ob("C20.guesses." + ty, badguess, doms(4)))
        obs.append(Ob("C20.tolerance." + ty, badtol, doms(4).extend({"tol": "real"})))

        def residue(cx, eps, ty=ty, value=value):
            a = [value(n) for n in ("res", "pole", "c0", "c1")]
            z = value("z")
            e = var("eps") if eps else t_.num("1e-12")
            nm = "h_e_compute_residue" + ("_with_eps" if eps else "") + "_" + ty
            f = lambda x: (a[2] * (x - a[1]) + a[0]) / (x - a[1]) + a[3] * (x - a[1])
            r = cx.call(nm, z, *([e] if eps else []), *a)
            cx.equal(r, 2 * e / (1 / f(z + e) - 1 / f(z - e)), "difference quotient of the inverse")
            # exact for a simple pole
            r = cx.call(nm, a[1], *([e] if eps else []), a[0], a[1], ZERO, ZERO)
            cx.equal(r, a[0], "residue of a simple pole")
            if eps:
                r = cx.call(nm, a[1], e, *a)
                cx.limit(r, e, a[0], "residue as the offset vanishes")

        rd = {"eps": ("1/100", "1/10", 0, 10)}
        for n in ("z", "res", "pole", "c0", "c1"):
            if ty == "R":
                rd[n] = "real"
            else:
                rd[n + "_r"] = rd[n + "_i"] = "real"
        nz = [(eq(var("res"), ZERO), False)] if ty == "R" else []
        for eps in (True, False):
            obs.append(Ob("C20.residue.%s%s" % (ty, ".eps" if eps else ""), lambda cx, e=eps, f=residue: f(cx, e), Domain(rd, nz)))

    def linear(cx):
        c0, c1, tol, z0, z1 = (var(n) for n in ("c0", "c1", "tol", "z0", "z1"))
        cx.assume((eq(z0, z1), False), (eq(c1, ZERO), False))
        r = cx.call("h_e_find_root_quad", z0, z1, tol, 3, c0, c1, ZERO)
        cx.equal(r[0], ONE, "a linear function has its root found")
        x = c0 + c1 * r[1]
        cx.equal(r[2], x, "the value reported is the function's value")
        cx.holds(lt(x, tol), "within tolerance")
        cx.holds(lt(-tol, x), "within tolerance")

    obs.append(Ob("C20.linear", linear, Domain({"tol": ("1/10", 1, 0, BIG), "c0": "real", "c1": "real", "z0": "real", "z1": "real"})))

    def quadratic(cx):
        c0, c1, c2, tol, z0, z1 = (var(n) for n in ("c0", "c1", "c2", "tol", "z0", "z1"))
        cx.assume((eq(z0, z1), False))
        r = cx.call("h_e_find_root_quad", z0, z1, tol, 2, c0, c1, c2)
        if r[0] is ONE:
            x = c0 + c1 * r[1] + c2 * r[1] * r[1]
            cx.equal(r[2], x, "the value reported is the function's value")
            cx.holds(lt(x, tol), "within tolerance")
            cx.holds(lt(-tol, x), "within tolerance")

    obs.append(Ob("C20.quadratic", quadratic, Domain({"tol": ("1/10", 1, 0, BIG), "c0": "real", "c1": "real", "c2": "real", "z0": "real", "z1": "real"})))

    for eps in (True, False):

        def spectral(cx, eps=eps):
            z, v0, v1 = (mkvar(n, "C") for n in ("z", "v0", "v1"))
            e = var("eps") if eps else t_.num("1e-12")
            r = cx.call("h_e_spectral_function" + ("_with_eps" if eps else ""), z, *([e] if eps else []), v0, v1)
            cx.equal(r[0], I * (v0 - v1) / (2 * PI), "discontinuity")
            cx.equal(r[1], z + I * e, "point above")
            cx.equal(r[2], z - I * e, "point below")

        d = {"eps": ("1/100", "1/10", 0, 10)}
        for n in ("z", "v0", "v1"):
            d[n + "_r"] = d[n + "_i"] = "real"
        obs.append(Ob("C20.spectral" + (".eps" if eps else ""), spectral, Domain(d)))
    return obs
