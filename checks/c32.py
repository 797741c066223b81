"""The functions of the Python package, executed on symbolic numbers.

The package's functions are Python source compiled by Cython: the declarations
(`cimport`) are read here and bound to the exported C functions, executed from
their LLVM IR; the function bodies are executed by the Python interpreter on
objects that carry terms instead of numbers."""
import ast
import os
import re

import build
from util import *

TITLE = "functions of the Python package"
ASSUMPTIONS = ["Cython semantics taken to be those of Python with C doubles; the extension module itself cannot be built here (no Cython)"]
SRC = os.path.join(build.REPO, "python", "pyqcd_sme_so.pyx")


class Sym:
    """a Python number with symbolic value"""

    __slots__ = ("re", "im", "cx", "cplx")

    def __init__(self, cx, re, im=ZERO, cplx=False):
        self.cx, self.re, self.im, self.cplx = cx, tonum(re), tonum(im), cplx

    # attributes of Python numbers
    @property
    def real(self):
        return Sym(self.cx, self.re)

    @property
    def imag(self):
        return Sym(self.cx, self.im)

    def conjugate(self):
        return Sym(self.cx, self.re, -self.im, self.cplx)

    def term(self):
        return self.re + I * self.im if self.cplx else self.re

    def lift(self, o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, complex):
            return Sym(self.cx, num(F(o.real)), num(F(o.imag)), True)
        if isinstance(o, (int, float)):
            return Sym(self.cx, num(F(o)))
        raise TypeError("unsupported operand")

    def mk(self, o, z):
        c = self.cplx or o.cplx
        return Sym(self.cx, t_.re(z), t_.im(z), True) if c else Sym(self.cx, z)

    def __add__(self, o):
        o = self.lift(o)
        return Sym(self.cx, self.re + o.re, self.im + o.im, self.cplx or o.cplx)

    __radd__ = __add__

    def __neg__(self):
        return Sym(self.cx, -self.re, -self.im, self.cplx)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return self + (-self.lift(o))

    def __rsub__(self, o):
        return self.lift(o) + (-self)

    def __mul__(self, o):
        o = self.lift(o)
        return Sym(self.cx, self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re, self.cplx or o.cplx)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = self.lift(o)
        return self.mk(o, self.term() / o.term())

    def __rtruediv__(self, o):
        return self.lift(o) / self

    def __pow__(self, n):
        if not isinstance(n, int):
            raise TypeError("exponent")
        return self.mk(self, t_.powi(self.term(), n))

    def __abs__(self):
        return Sym(self.cx, t_.sqrt(self.re * self.re + self.im * self.im) if self.cplx else t_.absr(self.re))

    def __complex__(self):
        raise TypeError("concretisation")

    __float__ = __int__ = __complex__

    def cmp(self, c, neg=False):
        if self.cplx:
            raise TypeError("ordering of complex numbers")
        k = self.cx.choose(2)
        self.cx.assume((c, k == 0))
        return (k == 0) != neg

    def __lt__(self, o):
        return self.cmp(lt(self.re, self.lift(o).re))

    def __gt__(self, o):
        return self.cmp(lt(self.lift(o).re, self.re))

    def __le__(self, o):
        return self.cmp(le(self.re, self.lift(o).re))

    def __ge__(self, o):
        return self.cmp(le(self.lift(o).re, self.re))

    def __eq__(self, o):
        o = self.lift(o)
        r = True
        for a, b in ((self.re, o.re), (self.im, o.im)):
            if a is not b and r:
                k = self.cx.choose(2)
                self.cx.assume((eq(a, b), k == 0))
                r = k == 0
        return r

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __bool__(self):
        return self != 0


from fractions import Fraction as F


class Struct:
    """the C structure of a complex number"""

    def __init__(self, cx, a, b):
        self.re, self.im = a, b


def sources():
    """-> (cimports {alias: name}, executable source)"""
    cim, out = {}, []
    for l in open(SRC).read().replace("\\\n", " ").split("\n"):
        m = re.match(r"\s*from\s+[\w.]+\s+cimport\s+(.*)$", l)
        if m:
            for x in m.group(1).strip("() ").split(","):
                y = x.split()
                if y:
                    cim[y[2] if len(y) == 3 else y[0]] = y[0]
            out.append("")
        elif re.match(r"\s*cimport\b", l):
            out.append("")
        else:
            l = re.sub(r"^(\s*)c?p?def\s+(?:[\w]+\s+)?(\w+\()", r"\1def \2", l)
            l = re.sub(r"^(\s*)cdef\s+[\w.]+\s+(\w+\s*=)", r"\1\2", l)
            if l.lstrip().startswith("def "):
                l = re.sub(r"([(,]\s*)(?:double|float|complex|int|object)\s+(complex\s+)?(\w+)", r"\1\3", l)
            out.append(l)
    return cim, "\n".join(out)


def obligations(env):
    cim, src = sources()
    code = compile(src, SRC, "exec")
    names = [n.name for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and not n.name.startswith("_")]
    # a later definition replaces an earlier one
    exported = {e["sym"]: e for e in env.api.values() if e.get("kind") == "ffi"}
    obs = []
    for n in dict.fromkeys(names):
        e = exported.get(n)

        def same(cx, n=n, e=e):
            if e is None:
                raise fw.Inconclusive("no exported function " + n)

            def bind(sym):
                x = exported.get(sym)
                if x is None:
                    return lambda a, b: Struct(cx, a, b)  # the structure

                def call(*args):
                    if len(args) != len(x["args"]):
                        raise TypeError("number of arguments of " + sym)
                    v = []
                    for (_, ty), a in zip(x["args"], args):
                        if ty == "C":
                            if not isinstance(a, Struct):
                                raise TypeError("structure expected")
                            for h in (a.re, a.im):
                                if isinstance(h, Sym) and h.cplx:
                                    raise TypeError("real component expected")
                            one = Sym(cx, ZERO)
                            v.append(one.lift(a.re).re + I * one.lift(a.im).re)
                        else:
                            a = Sym(cx, ZERO).lift(a)
                            if a.cplx:
                                raise TypeError("real number expected")
                            v.append(a.re)
                    r = cx.call(x["id"], *v)
                    if x["ret"] == "C":
                        return Struct(cx, Sym(cx, t_.re(r)), Sym(cx, t_.im(r)))
                    return Sym(cx, r) if x["ret"] == "R" else r

                return call

            g = {a: bind(s) for a, s in cim.items()}
            exec(code, g)
            args = []
            for nm, ty in e["args"]:
                z = mkvar(nm, ty)
                args.append(Sym(cx, t_.re(z), t_.im(z), True) if ty == "C" else Sym(cx, z))
            want = cx.call(e["id"], *mk_args(e))
            try:
                got = g[n](*args)
            except (TypeError, NameError, AttributeError, ValueError, KeyError) as x:
                tb = x.__traceback__
                while tb.tb_next is not None:
                    tb = tb.tb_next
                if tb.tb_frame.f_code.co_filename not in (SRC, __file__) and tb.tb_frame.f_code.co_filename != code.co_filename:
                    raise
                cx.never("%s raises %s: %s" % (n, type(x).__name__, x))
            if isinstance(got, (int, float, complex)):
                got = args[0].lift(got)
            if not isinstance(got, Sym):
                cx.never("%s does not return a number" % n)
            if e["ret"] == "R" and got.cplx:
                cx.equal(got.im, ZERO, n + " is real")
            cx.equal(got.term(), want, n + " = the exported function")

        obs.append(Ob("C32." + n, same, edom(e) if e else dom_for([])))
    return obs
