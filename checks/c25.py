"""What the critical-temperature program (physical_tc) plots and returns.

The functions of the program are executed from its own source.  Files, plots
and log messages are replaced by stand-ins that record what is plotted; the
propagators (decided by C17 and C18) by a generic function of everything they
depend on, so that a wrong argument anywhere shows."""
import re

from fractions import Fraction as F

import alg
import build
import fw
from util import *

TITLE = "outputs of the critical-temperature program"
ASSUMPTIONS = [
    "the four propagators the program calls are replaced by generic functions (symbolic coefficients) of frequency, momentum, temperature, chemical potential, additive constant and masses",
    "rayon's parallel iterators are executed as sequential ones",
    "what is plotted and returned is decided; the text written to files is not",
]


WRITES = [True]  # whether every number written to a file is recorded


def line(m):
    """a line of numbers written to a file"""
    args = [x.strip() for x in m.group(5).split(",") if x.strip()]
    vals = []
    for name, spec in re.findall(r"\{(\w*)(:[^}]*)?\}", m.group(4)):
        if "?" in spec:
            return m.group(0)
        if name and not name.isdigit():
            vals.append(dict(a.split("=", 1) for a in args if "=" in a).get(name, name))
        else:
            a = [a for a in args if "=" not in a]
            k = int(name) if name else len(vals)
            if k >= len(a):
                return m.group(0)
            vals.append(a[k])
    return "vshim::line(&%s, &[%s])" % (m.group(3), ", ".join("vshim::value(&(%s))" % v for v in vals))


def plain(text):
    """without the numbers written to files"""
    text = shim(text, False)
    WRITES[0] = False
    return text


def shim(text, record=True):
    text = re.sub(r"(?m)^use lazy_static::[^;]*;", "use vshim::lazy_static;", text)
    text = re.sub(r"(?m)^use log::[^;]*;", "use vshim::info;", text)
    text = re.sub(r"(?m)^use std::fs;", "use vshim::fs;", text)
    text = re.sub(r"(?m)^use std::io::\{[^;}]*\};", "use std::io::Write;\nuse vshim::BufWriter;", text)
    if record:
        text = re.sub(r'\bwrite(ln)?!\(\s*(&mut )?(\w+),\s*"([^"]*)"\s*((?:,[^;()]*)?)\)', line, text)
    rest = re.sub(r"(?ms)^(pub )?fn main\b.*?^}", "", text)
    WRITES[0] = not re.search(r"\bwrite(ln)?!|\bwrite_(all|fmt|str)\b|\bfs::write\b|::write\(", rest)
    return re.sub(r"\.(into_)?par_iter(_mut)?\(\)", r".\1iter\2()", text)


UNFIT = []


def environment():
    try:
        prog, lib, api, _ = build.build_tc("vtcq", "bin/physical_tc.rs", "run_shim.rs", edit=shim)
    except build.BuildError as e:
        try:
            prog, lib, api, _ = build.build_tc("vtcq", "bin/physical_tc.rs", "run_shim.rs", edit=plain)
            return fw.Env(prog, lib, api)
        except build.BuildError:
            pass
        # does the program itself build?
        prog, lib, api, _ = build.build_tc("vtcp", "bin/physical_tc.rs", "phys_tail.rs")
        UNFIT.append(str(e)[:400])
    return fw.Env(prog, lib, api)


def unfit(cx):
    raise alg.Inconclusive("the stand-ins do not fit the program's source: " + UNFIT[0])


NAMES = "om ren f0 ts mlo mst plo pst m q0 q1 mc c0 c1 edge".split()


class Run:
    """one run of the program: its parameters, symbolic unless given"""

    def __init__(self, **fix):
        for x in NAMES:
            setattr(self, x, num(F(fix[x])) if x in fix else var(x))
        self.w = [num(F(fix["w%d" % i])) if "w%d" % i in fix else var("w%d" % i) for i in range(13)]
        self.start = self.f0 + (2 * t_.ln(self.m / self.q0) + t_.ln(self.m / self.q1)) * 4 / 27
        self.fixed = self.f0 + (2 * t_.ln(self.m / self.c0) + t_.ln(self.m / self.c1)) * 4 / 27

    def prop(self, comp, zero, p, t, mu, dec):
        """stand-in propagator at momentum p and temperature t (in units of m)"""
        W = self.w
        a, b = (self.c0, self.c1) if dec else (self.q0, self.q1)
        r = W[(2 if zero else 0) + (1 if comp == "t" else 0)] + W[4] * self.om + W[5] * p + W[7] * mu + W[8] * (self.fixed if dec else self.start) + W[9] * (self.mc if dec else self.m) + W[10] * (a + b)
        return r + (W[11] + W[12] * mu) * mu if zero else r + W[6] / (t * self.m)

    def value(self, comp, p, i, mu, dec):
        """m^2 times the renormalised propagator"""
        t = num(i) * self.ts
        m, ren = self.m, self.ren
        return self.prop(comp, i == 0, p * m, t, mu, dec) * m * m / (self.prop(comp, i == 0, ren, t, mu, dec) * ren * ren)

    def mu(self, j):
        return self.mlo + num(j) * self.mst

    def __call__(self, cx, which, corr, nt, nm, np):
        s = self
        return cx.call("h_tc_run", which, corr, s.om, s.ren, s.f0, num(nt) * s.ts, s.ts, s.mlo, self.mu(nm), s.mst, s.plo, s.plo + num(np) * s.pst, s.pst, s.m, s.q0, s.q1, s.mc, s.c0, s.c1, s.edge, s.w)

    def boundary(self, cx, corr, nt):
        """above which temperature index the corrected masses are in use"""
        if not corr:
            return lambda i: False
        ts, edge = self.ts, self.edge
        k = cx.choose(nt + 1)  # the boundary lies in [k, k+1) steps
        if k == 0:
            cx.assume((lt(edge, ts), True))
        else:
            cx.assume((le(num(k) * ts, edge), True))
            if k < nt:
                cx.assume((lt(edge, num(k + 1) * ts), True))
        return lambda i: i > k


class Out:
    def __init__(self, cx, r):
        self.cx, self.r, self.k = cx, r, 0

    def eq(self, x, what):
        if self.k >= len(self.r):
            self.cx.equal(ONE, ZERO, what + " missing")
            return
        self.cx.equal(self.r[self.k], tonum(x), what)
        self.k += 1

    def lines(self, xs, what):
        """numbers written to files, in order"""
        if WRITES[0]:
            self.eq(len(xs), "how many numbers are written to files")
            for x in xs:
                self.eq(x, what)
        else:
            self.k = len(self.r)

    def end(self):
        self.cx.equal(num(len(self.r)), num(self.k), "nothing else is plotted")


def obligations(env):
    if UNFIT:
        return [Ob("C25.source", unfit, Domain({}))]
    obs = []
    D = Domain({x: "pos" for x in NAMES + ["w%d" % i for i in range(13)]}).extend({"mlo": ("1/10", 3, 0, 1000), "mst": ("1/10", 3, 0, 1000)})
    g = Run()
    # everything but the weights a generic number; equal masses, whose logarithms vanish
    h = Run(om="3/7", ren="31/10", f0="9/11", ts="2/13", mlo="1/17", mst="1/5", plo="3/19", pst="1/3", m="7/5", q0="7/5", q1="7/5", mc="7/5", c0="7/5", c1="7/5", edge=1, w0=30, w1=1, w3=1, w4=2, w5="5/3", w8="1/2", w9="3/4", w6="1/20", w7="2/9", w10="1/7", w12=-4)

    for corr in (0, 1):
        tag = "corrected" if corr else "plain"
        for nt, nm in ((2, 1), (3, 2), (1, 0)):

            def ir(cx, corr=corr, nt=nt, nm=nm):
                dec = g.boundary(cx, corr, nt)
                o = Out(cx, g(cx, 0, corr, nt, nm, 1))
                o.eq(nt + 1, "number of temperatures")
                for i in range(nt + 1):
                    o.eq(num(i) * g.ts, "temperature")
                o.eq(nm + 1, "one curve per chemical potential")
                for j in range(nm + 1):
                    o.eq(nt + 1, "points of the curve")
                    for i in range(nt + 1):
                        o.eq(g.value("l", g.plo, i, g.mu(j), dec(i)), "renormalised propagator at the first momentum")
                o.lines([], "")
                o.end()

            obs.append(Ob("C25.infrared.%s.%d.%d" % (tag, nt, nm), ir, D))
        for which, comp in ((1, "l"), (2, "t")):
            for nt, nm, np in ((1, 1, 1), (2, 0, 2)):

                def pr(cx, corr=corr, nt=nt, nm=nm, np=np, which=which, comp=comp):
                    dec = g.boundary(cx, corr, nt)
                    o = Out(cx, g(cx, which, corr, nt, nm, np))
                    text = []
                    for j in range(nm + 1):
                        o.eq(np + 1, "number of momenta")
                        for k in range(np + 1):
                            o.eq(g.plo + num(k) * g.pst, "momentum")
                        o.eq(nt + 1, "one curve per temperature")
                        for i in range(nt + 1):
                            o.eq(np + 1, "points of the curve")
                            for k in range(np + 1):
                                p = g.plo + num(k) * g.pst
                                v = g.value(comp, p, i, g.mu(j), dec(i))
                                o.eq(v, "renormalised propagator")
                                text += [p, v]
                    o.lines(text, "data file of the propagator")
                    o.end()

                obs.append(Ob("C25.propagators.%s.%s.%d.%d.%d" % (comp, tag, nt, nm, np), pr, D))
    for nt, nm in ((1, 4), (1, 5), (2, 4), (1, 6)):

        def phase(cx, nt=nt, nm=nm):
            tc = []
            for j in range(nm + 1):
                v = [h.value("l", h.plo, i, h.mu(j), False) for i in range(nt + 1)]
                # which temperature maximises the propagator, the lowest of several
                b = cx.choose(nt + 1)
                for i in range(nt + 1):
                    if i < b:
                        cx.assume((lt(v[i], v[b]), True))
                    elif i > b:
                        cx.assume((le(v[i], v[b]), True))
                cx.prune()
                tc.append(num(b) * h.ts)
            d2 = lambda j: (tc[j + 2] - 2 * tc[j] + tc[j - 2]) / (4 * h.mst * h.mst)
            o = Out(cx, h(cx, 3, 0, nt, nm, 1))
            o.eq(nm + 1, "number of chemical potentials")
            for j in range(nm + 1):
                o.eq(h.mu(j), "chemical potential")
            o.eq(1, "one curve")
            o.eq(nm + 1, "points of the curve")
            for j in range(nm + 1):
                o.eq(tc[j], "critical temperature")
            o.eq(nm - 3, "number of second derivatives")
            for j in range(2, nm - 1):
                o.eq(h.mu(j), "chemical potential of the second derivative")
            o.eq(1, "one curve")
            o.eq(nm - 3, "points of the curve")
            for j in range(2, nm - 1):
                o.eq(d2(j), "second derivative of the critical temperature")
            o.eq(nm + 1, "points of the boundary")
            for j in range(nm + 1):
                o.eq(h.mu(j), "chemical potential of the boundary")
                o.eq(tc[j], "temperature of the boundary")
            o.lines([x for j in range(nm + 1) for x in (h.mu(j), tc[j])] + [x for j in range(2, nm - 1) for x in (h.mu(j), d2(j))], "data files of the phase diagram")
            o.end()

        dom = Domain({}).extend({"w2": (28, 32, 0, 1000), "w11": (0, 5, 0, 1000)})
        obs.append(Ob("C25.phase.%d.%d" % (nt, nm), phase, dom, tier="quick" if nt == 1 and nm < 6 else "thorough"))
    return obs
