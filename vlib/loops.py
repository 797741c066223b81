"""The thermal loop integrands of the library by name: their masses, their
reference expression and the domains of their instantiations."""
import re

import spec
import term as t_
from util import *

L = "low_level::oneloop::thermal"
KINS = ("", "::zero_matsubara", "::zero_momentum")
q, om, p, be = (var(x) for x in ("q", "om", "p", "beta"))
NAME = re.compile(r"^(i|d_i)_(m_m|m_0|0_0|m_t_0)(_l|_t)?_i(_same_mass)?$|^(j|d_j|d2_j)_(m|0)(_l|_t)?_i$")


class Loop:
    """one instantiation of an integrand"""

    def __init__(self, kin, e):
        self.kin, self.e = kin, e
        x = NAME.match(e["sym"])
        self.v = v = {n: mkvar(n, t) for n, t in e["args"]}
        if x.group(1):
            self.kind, k, self.comp = x.group(1), x.group(2), x.group(3) or ""
            if k == "m_t_0":
                k, self.comp = "m_0", "_t"
            if x.group(4):
                self.masses = (v["m"], v["m"])
            else:
                self.masses = {"m_m": lambda: (v["m1"], v["m2"]), "m_0": lambda: (v["m"], ZERO), "0_0": lambda: (ZERO, ZERO)}[k]()
        else:
            self.kind, self.comp = x.group(5), x.group(7) or ""
            self.masses = (v["m"] if x.group(6) == "m" else ZERO,)
        self.ty = dict(e["args"])
        self.name = e["id"][len("h_low_level__oneloop__thermal__"):]

    def ref(self):
        """reference expression of the general kinematics"""
        f = getattr(spec, self.kind + ("_m" if self.kind[-1] == "j" else "_m_m") + self.comp + "_i")
        return self.at(f, *self.masses)

    def at(self, f, *masses):
        if self.kind[-1] == "j":
            return f(q, *masses, be)
        return f(q, self.v.get("om", om), self.v.get("p", p), *masses, be)

    def general(self, A):
        """entry of the same name in the general kinematics: the same argument
        types where there is one, otherwise the one taking complex numbers"""
        fam = A.fam[(L, self.e["sym"])].values()
        fits = lambda e: all(self.ty.get(n, "R") == t for n, t in e["args"])
        return next((e for e in fam if fits(e)), None) or next(e for e in fam if all(t == "C" or self.ty.get(n, t) == t for n, t in e["args"]))

    def compare(self, cx, code, ref, what):
        """the code's value is the reference at this kinematics"""
        if self.kind[-1] == "j":
            return cx.equal(code, ref, what)
        if self.kin.endswith("matsubara"):
            return cx.limit(ref, om, code, what + ", vanishing frequency")
        if self.kin.endswith("momentum"):
            return cx.limit(ref, p, code, what + ", vanishing momentum")
        return cx.equal(code, ref, what)

    def domains(self):
        """(tag, domain): the arguments off the branch cuts, in every half plane"""
        ty = self.ty
        ms = [n for n in ("m", "m1", "m2") if ty.get(n) == "C"]
        rest = [n for n in ("om", "p") if ty.get(n) == "C"]
        combos = [("", {})]
        for n in ms + rest:
            combos = [(t + s, dict(d, **{n + "_i": h})) for t, d in combos for s, h in (("u", UPPER), ("l", LOWER))]
        for t, d in combos:
            dom = edom(self.e, d)
            if self.kind[-1] != "j":
                if "om" not in ty:
                    dom = dom.extend({"om": "pos"})
                if "p" not in ty:
                    dom = dom.extend({"p": "pos"})
            if not ms or self.kind[-1] == "j" or not self.kin.endswith("matsubara") or self.e["sym"].endswith("same_mass"):
                yield t, dom
                continue
            # the sign of the imaginary part of the difference of the squares
            # (both, where the half planes of the masses leave it open)
            m1, m2 = self.masses
            im = t_.im(m2 * m2 - m1 * m1)
            half = {n: t[ms.index(n)] for n in ms}
            a = half.get("m1", half.get("m"))
            b = half.get("m2")
            signs = {"lt", "gt"}
            if b is None or a != b:
                signs = {"lt" if a == "u" or (a is None and b == "l") else "gt"}
            for sg in sorted(signs):
                c = lt(im, ZERO) if sg == "lt" else lt(ZERO, im)
                yield t + ("." + sg if len(signs) == 2 else ""), dom.extend(facts=[(c, True)])


def loops(A):
    for kin in KINS:
        for (mod, fn), fam in A.fam.items():
            if mod == L + kin and NAME.match(fn):
                for e in fam.values():
                    yield Loop(kin, e)
