"""Deciding equality of terms.

Both sides are brought to the form  sum over monomials in transcendental atoms
of rational functions in the inputs (and algebraic elements such as i and
energies); every remaining question is an (in)equality of real polynomials,
which z3 decides for all values of the variables.

High-precision values at a few points are used only to *propose* which atoms
might be equal and to find a concrete point once an equality fails; they never
establish an equality.
"""
import random
import time
from fractions import Fraction

import mpmath
import z3

import term as t_
from term import T

BIG = 10**12  # bound on the size of inputs
MP = mpmath.MPContext()
MP.dps = 60


class Inconclusive(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.lemmas = {}

    def add(self, o):
        for k in ("queries", "unsat", "sat", "unknown", "time"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.lemmas.items():
            self.lemmas[k] = self.lemmas.get(k, 0) + v

    def lemma(self, k):
        self.lemmas[k] = self.lemmas.get(k, 0) + 1


STATS = Stats()


class Deadline:
    def __init__(self, s):
        self.t = time.time() + s

    def left(self):
        return self.t - time.time()


def z3check(assertions, timeout_ms, want_model=False):
    s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    for a in assertions:
        s.add(a)
    t0 = time.time()
    r = s.check()
    STATS.time += time.time() - t0
    STATS.queries += 1
    if r == z3.unsat:
        STATS.unsat += 1
        return "unsat", None
    if r == z3.sat:
        STATS.sat += 1
        return "sat", (s.model() if want_model else None)
    STATS.unknown += 1
    return "unknown", None


def z3check_forked(mk, timeout_ms):
    """z3 verdict from a child process: large polynomials can keep z3's
    preprocessing busy beyond its own time limit"""
    import os
    import select
    import signal

    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            s = z3.Solver()
            s.set("timeout", int(timeout_ms))
            for a in mk():
                s.add(a)
            os.write(w, str(s.check()).encode())
        finally:
            os._exit(0)
    os.close(w)
    try:
        ok, _, _ = select.select([r], [], [], timeout_ms / 1000 + 5)
        res = os.read(r, 20).decode() if ok else ""
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
    STATS.time += time.time() - t0
    STATS.queries += 1
    if res == "unsat":
        STATS.unsat += 1
        return "unsat"
    if res == "sat":
        STATS.sat += 1
        return "sat"
    STATS.unknown += 1
    return "unknown"


# ------------------------------------------------------------------ domain


class Domain:
    """Input domain.  For every variable a sampling interval (used only to
    propose and to exhibit points) and the bounds the solver works with."""

    def __init__(self, ranges, facts=(), ints=(), note=""):
        self.ranges = {}
        for n, r in dict(ranges).items():
            self.ranges[n] = self.spec(r)
        self.facts = list(facts)  # list of (Cond, bool)
        self.ints = set(ints)
        self.note = note

    @staticmethod
    def spec(r):
        big = Fraction(BIG)
        if r == "pos":
            return (Fraction(1, 10), Fraction(3), Fraction(0), big)
        if r == "real":
            return (Fraction(-3), Fraction(3), -big, big)
        r = tuple(Fraction(x) for x in r)
        return r if len(r) == 4 else r + r

    def extend(self, ranges=(), facts=(), ints=()):
        d = Domain({}, self.facts, self.ints, self.note)
        d.ranges = dict(self.ranges)
        for n, r in dict(ranges).items():
            d.ranges[n] = self.spec(r)
        d.facts = d.facts + list(facts)
        d.ints |= set(ints)
        return d

    def rand_wide(self, rng, names):
        env = self.rand(rng, names)
        for n in names:
            r = self.ranges.get(n)
            if r is None or n in self.ints or n.endswith("!") or r[2:] == r[:2] or rng.random() < 0.3:
                continue
            for _ in range(4):
                v = Fraction(int(10 ** rng.uniform(2, 6.3)), 10**4)
                if r[2] < 0 and rng.random() < 0.5:
                    v = -v
                if r[2] < v < r[3]:
                    env[n] = v
                    break
        return env

    def rand(self, rng, names):
        env = {}
        for n in names:
            lo, hi = self.ranges.get(n, (Fraction(0), Fraction(1)) if n == "tau!" else (Fraction(1, 10), Fraction(3)))[:2]
            if n in self.ints:
                env[n] = Fraction(rng.randint(int(lo), int(hi)))
            else:
                env[n] = lo + (hi - lo) * Fraction(rng.randint(1, 9972), 9973)
        return env

    def z3facts(self, zt):
        out = []
        for n, r in self.ranges.items():
            if n in zt.vars:
                v = zt.vars[n]
                lo, hi = z3.RealVal(str(r[2])), z3.RealVal(str(r[3]))
                if n in self.ints:
                    out += [v >= lo, v <= hi]
                else:
                    out += [v > lo, v < hi]
        return out

    def describe(self):
        o = {}
        for n, r in self.ranges.items():
            o[n] = "(%s, %s)%s" % (float(r[2]) if abs(r[2]) < BIG else "%.0e" % r[2], float(r[3]) if abs(r[3]) < BIG else "%.0e" % r[3], " integer" if n in self.ints else "")
        return o


def cond_term(c):
    return t_.sub(c.a, c.b)


def cond_holds(c, pol, env, memo):
    a = MP.re(t_.evalmp(c.a, env, MP, memo))
    b = MP.re(t_.evalmp(c.b, env, MP, memo))
    v = {"lt": a < b, "le": a <= b, "eq": abs(a - b) < MP.mpf(10) ** -40 * (1 + abs(a))}[c.rel]
    return v == pol


# ------------------------------------------------------------------ z3 view of real-valued terms


class ZTrans:
    """complex term -> pair of z3 reals; transcendental atoms are free reals
    with sound axioms, square roots are exact"""

    def __init__(self, light=False):
        self.light = light
        self.vars = {}
        self.memo = {}
        self.side = []
        self.atoms = {}
        self.n = 0
        self.pi = None
        self.hard = False

    def fresh(self, p):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def var(self, n):
        v = self.vars.get(n)
        if v is None:
            v = z3.Real(n)
            self.vars[n] = v
        return v

    def cond(self, c, pol=True):
        a, b = self.re(c.a), self.re(c.b)
        f = {"lt": a < b, "le": a <= b, "eq": a == b}[c.rel]
        return f if pol else z3.Not(f)

    def re(self, t):
        return self.tr(t)[0]

    def tr(self, t):
        for u in t_.subterms([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self._tr(u)
        return self.memo[t.id]

    def _tr(self, u):
        Z = z3.RealVal(0)
        op = u.op
        if op == "num":
            return (z3.RealVal(str(u.a[0])), Z)
        if op == "var":
            return (self.var(u.a[0]), Z)
        if op == "pi":
            if self.pi is None:
                self.pi = z3.Real("pi!")
                self.side.append(self.pi > z3.RealVal("3.14159265358979"))
                self.side.append(self.pi < z3.RealVal("3.14159265358980"))
            return (self.pi, Z)
        if op == "I":
            return (Z, z3.RealVal(1))
        m = [self.memo[x.id] for x in u.a if isinstance(x, T)]
        if op in ("exp", "ln"):
            self.hard = True
        real = [z3.is_rational_value(x[1]) and x[1].as_fraction() == 0 for x in m]
        if op == "add":
            return (m[0][0] + m[1][0], self._a(m[0][1], m[1][1], real, 1))
        if op == "sub":
            return (m[0][0] - m[1][0], self._a(m[0][1], m[1][1], real, -1))
        if op == "neg":
            return (-m[0][0], Z if real[0] else -m[0][1])
        if op == "mul":
            (a, b), (c, d) = m
            if all(real):
                return (a * c, Z)
            if real[0]:
                return (a * c, a * d)
            if real[1]:
                return (a * c, b * c)
            return (a * c - b * d, a * d + b * c)
        if op == "div":
            (a, b), (c, d) = m
            if real[1]:
                q = self.fresh("q")
                self.side += [q * c == a, c != 0]
                if real[0]:
                    return (q, Z)
                r = self.fresh("q")
                self.side += [r * c == b]
                return (q, r)
            x, y = self.fresh("qr"), self.fresh("qi")
            self.side += [x * c - y * d == a, x * d + y * c == b, c * c + d * d != 0]
            return (x, y)
        if op == "sqrt" and real[0]:
            r = self.fresh("sqrt")
            self.side += [r >= 0, r * r == m[0][0]]
            return (r, Z)
        if op == "re":
            return (m[0][0], Z)
        if op == "im":
            return (m[0][1], Z)
        if op == "abs" and real[0]:
            return (z3.If(m[0][0] < 0, -m[0][0], m[0][0]), Z)
        if op == "exp" and not all(real):
            e, f = self.fresh("exp"), self.fresh("expi")
            self.side.append(z3.Implies(m[0][1] == 0, z3.And(f == 0, e > 0)))
            return (e, f)
        if op == "exp" and self.light:
            e = self.fresh("exp")
            self.side.append(e > 0)
            return (e, Z)
        if op == "exp" and all(real):
            e = self.fresh("exp")
            x = m[0][0]
            self.side += [e > 0, z3.Implies(x > 0, e > 1 + x), z3.Implies(x < 0, e < 1), z3.Implies(x == 0, e == 1)]
            for px, pe in self.atoms.get("exp", []):
                self.side += [(x < px) == (e < pe), (x == px) == (e == pe)]
            self.atoms.setdefault("exp", []).append((x, e))
            return (e, Z)
        if op == "ln" and all(real):
            l = self.fresh("ln")
            x = m[0][0]
            li = self.fresh("lni")
            if self.light:
                self.side.append(z3.Implies(x > 0, li == 0))
                return (l, li)
            self.side += [z3.Implies(x > 1, l > 0), z3.Implies(z3.And(x > 0, x < 1), l < 0), z3.Implies(x == 1, l == 0), z3.Implies(x > 0, l <= x - 1), z3.Implies(x > 0, li == 0)]
            for px, pe in self.atoms.get("ln", []):
                self.side += [z3.Implies(z3.And(x > 0, px > 0), z3.And((x < px) == (l < pe), (x == px) == (l == pe)))]
            self.atoms.setdefault("ln", []).append((x, l))
            return (l, li)
        if op == "sqrt":
            a, b = m[0]
            x, y = self.fresh("sqr"), self.fresh("sqi")
            self.side += [x * x - y * y == a, 2 * x * y == b, x >= 0]
            return (x, y)
        # opaque
        isr = t_.isreal(u)
        x = self.fresh(op)
        return (x, Z if isr else self.fresh(op))

    @staticmethod
    def _a(x, y, real, sg):
        if real[0] and real[1]:
            return z3.RealVal(0)
        if real[1]:
            return x
        if real[0]:
            return y if sg > 0 else -y
        return x + y if sg > 0 else x - y


class Oracle:
    """feasibility of a branch condition under the domain and path"""

    def __init__(self, domain, timeout_ms=2000):
        self.d = domain
        self.to = timeout_ms
        self.cache = {}
        self.points = []
        self.rng = random.Random(12345)

    def __call__(self, conds, c):
        key = (tuple((x.key(), p) for x, p in conds), c.key())
        r = self.cache.get(key)
        if r is None:
            r = (self.feasible(conds, c, True), self.feasible(conds, c, False))
            self.cache[key] = r
        return r

    def feasible(self, conds, c, pol):
        names = t_.variables([x for k, _ in list(conds) + self.d.facts + [(c, True)] for x in (k.a, k.b)])
        # a concrete witness first
        for _ in range(12):
            e = self.d.rand(self.rng, names)
            env = {k: MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
            memo = {}
            try:
                if all(cond_holds(k, p, env, memo) for k, p in self.d.facts) and all(cond_holds(k, p, env, memo) for k, p in conds) and cond_holds(c, pol, env, memo):
                    return True
            except (t_.Undefined, ZeroDivisionError):
                pass
        for light, to in ((False, self.to), (True, self.to)):
            zt = ZTrans(light)
            fs = [zt.cond(k, p) for k, p in self.d.facts]
            fs += [zt.cond(k, p) for k, p in conds]
            fs.append(zt.cond(c, pol))
            fs += self.d.z3facts(zt)
            fs += zt.side
            r, _ = z3check(fs, to)
            if r == "unsat":
                return False
            if r == "sat" or not zt.hard:
                return True
        return True


def solve_point(domain, conds, names, timeout_ms=5000, extra=None):
    """rational point in the domain satisfying the path conditions, via z3"""
    zt = ZTrans()
    fs = [zt.cond(k, p) for k, p in domain.facts] + [zt.cond(k, p) for k, p in conds]
    for n in names:
        zt.var(n)
    if extra:
        fs += extra(zt)
    fs += domain.z3facts(zt) + zt.side
    r, m = z3check(fs, timeout_ms, True)
    if r != "sat":
        return r, None
    env = {}
    for n in names:
        v = m.eval(zt.vars[n], model_completion=True)
        if z3.is_rational_value(v):
            env[n] = v.as_fraction()
        elif z3.is_algebraic_value(v):
            env[n] = v.approx(30).as_fraction()
        else:
            env[n] = Fraction(0)
    return "sat", env


def pinned_point(domain, conds, names, rng):
    """a generic point of a thin path: random values are kept for as many
    variables as z3 allows, the others come from its model"""
    zt = ZTrans()
    s = z3.Solver()
    s.set("timeout", 700)
    s.add(*([zt.cond(k, p) for k, p in domain.facts] + [zt.cond(k, p) for k, p in conds]))
    for n in names:
        zt.var(n)
    s.add(*(domain.z3facts(zt) + zt.side))
    # stay away from the boundaries of the conditions where possible
    for k, p in conds:
        if k.rel == "eq":
            continue
        x, y = (k.a, k.b) if p else (k.b, k.a)
        s.push()
        s.add(zt.re(x) + z3.Q(1, 20) < zt.re(y))
        STATS.queries += 1
        if s.check() != z3.sat:
            s.pop()
            s.push()
            s.add(zt.re(x) < zt.re(y))
            STATS.queries += 1
            if s.check() != z3.sat:
                s.pop()
    r = domain.rand(rng, names)
    order = list(names)
    rng.shuffle(order)
    # variables of the conditions last
    cv = set(t_.variables([x for k, _ in list(conds) + list(domain.facts) for x in (k.a, k.b)]))
    order.sort(key=lambda n: n in cv)
    left = []
    for n in order:
        v = z3.Q(r[n].numerator, r[n].denominator)
        if n not in cv:
            s.add(zt.vars[n] == v)
            continue
        ok = False
        for lo, hi in ((v, v), (v - z3.Q(1, 10), v + z3.Q(1, 10)), (v - 1, v + 1)):
            s.push()
            s.add(zt.vars[n] == v if lo is hi else z3.And(zt.vars[n] > lo, zt.vars[n] < hi))
            STATS.queries += 1
            if s.check() == z3.sat:
                ok = True
                break
            s.pop()
    if s.check() != z3.sat:
        return None
    m = s.model()
    env = {}
    for n in names:
        v = m.eval(zt.vars[n], model_completion=True)
        if z3.is_rational_value(v):
            env[n] = v.as_fraction()
        elif z3.is_algebraic_value(v):
            env[n] = v.approx(30).as_fraction()
        else:
            return None
    return env


# ------------------------------------------------------------------ equality


def cpair(u):
    """name X when u is the complex input X_r + I X_i"""
    if u.op != "add":
        return None
    a, b = u.a
    if a.op == "var" and a.a[0].endswith("_r") and b.op == "mul" and b.a[0] is t_.I and b.a[1].op == "var" and b.a[1].a[0] == a.a[0][:-2] + "_i":
        return a.a[0][:-2]
    return None


class Prover:
    def __init__(self, domain, conds=(), seed=1, npts=3, timeout_ms=20000, deadline=None, split_exp=False, lnrel=True, cmode=True):
        self.d = domain
        self.conds = list(conds)
        self.to = timeout_ms
        self.deadline = deadline
        self.rng = random.Random(seed)
        self.npts = npts
        self.names = set()
        self.pts = None
        self.atoms = []  # (kind, payload, values)
        self.facs = []  # denominators: (ring element, values)
        self.rads = []  # ring element of r^2, values
        self.vmemo = None
        self.nmemo = {}
        self.split_exp = split_exp
        self.cmode = cmode
        self.lnrel = lnrel
        self.poly_cache = {}
        self.sgn_cache = {}
        self.children = {}

    cused = False

    # -------------------------------------------------------- points
    def setup(self, terms):
        names = set(t_.variables(list(terms) + [x for k, _ in self.conds + self.d.facts for x in (k.a, k.b)]))
        names |= set(self.d.ranges)
        if self.pts is not None and names <= self.names:
            return
        self.names |= names
        names = sorted(self.names)
        self.pts = []
        self.vmemo = []
        tries = 0
        first = None
        while len(self.pts) < self.npts:
            tries += 1
            if tries > 60 * self.npts:
                if first is None:
                    self._wide(names, terms)
                    if len(self.pts) >= self.npts:
                        break
                    self.pts, self.vmemo = [], []
                    self._pinned(names, terms)
                    if len(self.pts) >= self.npts:
                        break
                    self.pts, self.vmemo = [], []
                    names = sorted(self.names)
                    r, env = solve_point(self.d, self.conds, names)
                    if r == "unsat":
                        raise Infeasible()
                    if env is None:
                        raise Inconclusive("no point found on path")
                    first = env
                    for _ in range(self.npts - len(self.pts)):
                        self._addpt(first)
                    self.degenerate = True
                    break
            e = self.d.rand(self.rng, names)
            env = {k: MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
            try:
                memo = {}
                if all(cond_holds(k, p, env, memo) for k, p in self.d.facts + self.conds):
                    for t in terms:
                        t_.evalmp(t, env, MP, memo)
                    self.pts.append((e, env))
                    self.vmemo.append(memo)
            except (t_.Undefined, ZeroDivisionError, OverflowError):
                continue
        self.nmemo = {}

    def _wide(self, names, terms):
        """points on a logarithmic scale over the whole domain"""
        for _ in range(150 * self.npts):
            e = self.d.rand_wide(self.rng, names)
            env = {k: MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
            try:
                memo = {}
                if all(cond_holds(k, p, env, memo) for k, p in self.d.facts + self.conds):
                    for t in terms:
                        t_.evalmp(t, env, MP, memo)
                    self.pts.append((e, env))
                    self.vmemo.append(memo)
            except (t_.Undefined, ZeroDivisionError, OverflowError):
                continue
            if len(self.pts) >= self.npts:
                return

    def _pinned(self, names, terms):
        t0 = time.time()
        for _ in range(3 * self.npts):
            if time.time() - t0 > 8:
                return
            e = pinned_point(self.d, self.conds, names, self.rng)
            if e is None:
                continue
            env = {k: MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
            try:
                memo = {}
                if all(cond_holds(k, p, env, memo) for k, p in self.d.facts + self.conds):
                    for t in terms:
                        t_.evalmp(t, env, MP, memo)
                    self.pts.append((e, env))
                    self.vmemo.append(memo)
            except (t_.Undefined, ZeroDivisionError, OverflowError):
                continue
            if len(self.pts) >= self.npts:
                return

    def _addpt(self, e):
        env = {k: MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
        self.pts.append((e, env))
        self.vmemo.append({})

    def vals(self, t):
        return [t_.evalmp(t, env, MP, m) for (_, env), m in zip(self.pts, self.vmemo)]

    @staticmethod
    def close(a, b):
        for x, y in zip(a, b):
            s = abs(x) + abs(y)
            if s == 0:
                continue
            if abs(x - y) > s * MP.mpf(10) ** -35 and abs(x - y) > MP.mpf(10) ** -45:
                return False
        return True

    # -------------------------------------------------------- polynomials
    def poly_zero(self, p):
        """p: T polynomial over real variables; identically zero?  decided by z3"""
        if p is t_.ZERO:
            return True
        r = self.poly_cache.get(p.id)
        if r is not None:
            return r
        # a nonzero value at a random rational point refutes the identity
        env = {}
        for n in t_.variables([p]) + ["pi"]:
            env[n] = MP.mpf(self.rng.randint(-997, 997)) / 991
        val = _polyval(p, env)
        if val[0] > val[1]:
            self.poly_cache[p.id] = False
            return False
        memo = {}
        to = self.to
        if self.deadline:
            to = max(1000, min(to, self.deadline.left() * 1000))
        n = sum(1 for _ in t_.subterms([p]))
        if n > 300:
            r = z3check_forked(lambda: [_polyz3(p, memo) != 0], to)
        else:
            r, _ = z3check([_polyz3(p, memo) != 0], to)
        if r == "unknown":
            raise Inconclusive("polynomial identity not decided by z3 (%d nodes)" % n)
        self.poly_cache[p.id] = r == "unsat"
        return r == "unsat"

    # ring element: dict basis(frozenset) -> T polynomial
    def radd(self, a, b, s=1):
        r = dict(a)
        for k, v in b.items():
            x = r.get(k)
            v = v if s == 1 else t_.mul(t_.num(s), v)
            x = v if x is None else t_.add(x, v)
            if x is t_.ZERO:
                r.pop(k, None)
            else:
                r[k] = x
        return r

    def rmul(self, a, b):
        r = {}
        for ka, va in a.items():
            for kb, vb in b.items():
                v = t_.mul(va, vb)
                common = ka & kb
                e = {ka ^ kb: v}
                for g in common:
                    if g == "I":
                        e = {k: t_.neg(x) for k, x in e.items()}
                    else:
                        e = self.rmul(e, self.rads[g][0])
                r = self.radd(r, e)
        return r

    def rzero(self, a):
        return all(self.poly_zero(v) for v in a.values())

    E0 = frozenset()

    def rconst(self, c):
        return {self.E0: t_.num(c)} if c else {}

    # frac: (ring element, den: dict factor id -> power)
    def fadd(self, x, y):
        (a, da), (b, db) = x, y
        if not a:
            return y
        if not b:
            return x
        if da != db:
            den = dict(da)
            for k, p in db.items():
                den[k] = max(p, den.get(k, 0))
            for k, p in den.items():
                for _ in range(p - da.get(k, 0)):
                    a = self.rmul(a, self.facs[k][0])
                for _ in range(p - db.get(k, 0)):
                    b = self.rmul(b, self.facs[k][0])
        else:
            den = da
        return (self.radd(a, b), den)

    def fmul(self, x, y):
        (a, da), (b, db) = x, y
        den = dict(da)
        for k, p in db.items():
            den[k] = den.get(k, 0) + p
        return (self.rmul(a, b), den)

    # element: (dict mono -> frac, gden: dict gfac id -> power)
    def const(self, c):
        c = Fraction(c)
        return ({(): (self.rconst(c), {})} if c else {}, {})

    def eadd(self, x, y):
        (a, ga), (b, gb) = x, y
        if ga != gb:
            g = dict(ga)
            for k, p in gb.items():
                g[k] = max(p, g.get(k, 0))
            for k, p in g.items():
                for _ in range(p - ga.get(k, 0)):
                    a = self.emul((a, {}), (self.gfacs[k][0], {}))[0]
                for _ in range(p - gb.get(k, 0)):
                    b = self.emul((b, {}), (self.gfacs[k][0], {}))[0]
            ga = g
        r = dict(a)
        for m, f in b.items():
            o = r.get(m)
            s = f if o is None else self.fadd(o, f)
            if not s[0]:
                r.pop(m, None)
            else:
                r[m] = s
        return (r, ga)

    def mmul(self, m1, m2):
        """product of monomials -> list of (mono, Fraction coefficient)"""
        d = dict(m1)
        for k, p in m2:
            d[k] = d.get(k, 0) + p
            if d[k] == 0:
                del d[k]
        return self.mred(d)

    def mred(self, d):
        # pole atoms w = 1/(X+c): eliminate products with X and other poles
        for k in list(d):
            a = self.atoms[k]
            if a[0] != "pole":
                continue
            xk, c = a[1]
            px = d.get(xk, 0)
            if px > 0:  # X*w = 1 - c*w
                d1 = dict(d)
                _dec(d1, xk, 1)
                _dec(d1, k, 1)
                d2 = dict(d)
                _dec(d2, xk, 1)
                return self.mred(d1) + [(m, -c * q) for m, q in self.mred(d2)]
            if px < 0:  # w/X = (1/X - w)/c
                d1 = dict(d)
                _dec(d1, k, 1)
                d2 = dict(d)
                _dec(d2, xk, -1)
                return [(m, q / c) for m, q in self.mred(d1)] + [(m, -q / c) for m, q in self.mred(d2)]
            for k2 in list(d):
                if k2 != k and self.atoms[k2][0] == "pole" and self.atoms[k2][1][0] == xk:
                    c2 = self.atoms[k2][1][1]
                    # w1*w2 = (w1 - w2)/(c2 - c1)
                    d1 = dict(d)
                    _dec(d1, k2, 1)
                    d2 = dict(d)
                    _dec(d2, k, 1)
                    f = 1 / (c2 - c)
                    return [(m, f * q) for m, q in self.mred(d1)] + [(m, -f * q) for m, q in self.mred(d2)]
        return [(tuple(sorted(d.items())), Fraction(1))]

    def emul(self, x, y):
        (a, ga), (b, gb) = x, y
        r = ({}, {})
        acc = {}
        for m1, f1 in a.items():
            for m2, f2 in b.items():
                f = self.fmul(f1, f2)
                if not f[0]:
                    continue
                for m, c in self.mmul(m1, m2):
                    g = f if c == 1 else (self.rmul(f[0], self.rconst(c)), f[1])
                    o = acc.get(m)
                    s = g if o is None else self.fadd(o, g)
                    if s[0]:
                        acc[m] = s
                    else:
                        acc.pop(m, None)
        g = dict(ga)
        for k, p in gb.items():
            g[k] = g.get(k, 0) + p
        return (acc, g)

    gfacs = None

    def einv(self, x, t):
        """1/x for an element x (value term t, for fingerprints)"""
        a, ga = x
        if not a:
            raise Inconclusive("division by an identically zero expression")
        # multiply back global denominators
        numr = self.const(1)
        for k, p in ga.items():
            for _ in range(p):
                numr = self.emul(numr, (self.gfacs[k][0], {}))
        if len(a) == 1:
            ((m, f),) = a.items()
            if all(self.atoms[k][0] == "exp" for k, _ in m):
                im = tuple((k, -p) for k, p in m)
                num_, den = f
                base = self.const(1)
                fr = (self.rconst(1), {})
                for k, p in den.items():
                    for _ in range(p):
                        fr = (self.rmul(fr[0], self.facs[k][0]), {})
                if len(num_) == 1 and self.E0 in num_ and num_[self.E0].op == "num":
                    fr = (self.rmul(fr[0], self.rconst(1 / num_[self.E0].a[0])), {})
                else:
                    fid, c = self.factor(num_)
                    fr = (self.rmul(fr[0], self.rconst(1 / c)), {fid: 1})
                return self.emul(numr, ({im: fr}, {}))
        # c1*X + c0 with constant ratio -> pole atom
        pol = self.as_linear_exp(a)
        if pol is not None:
            xk, c1, c0 = pol  # c1, c0 fracs ; need c0/c1 rational constant
            w = self.pole(xk, c0 / c1[1])
            inv1 = self.einv(({(): c1[0]}, {}), None)
            return self.emul(self.emul(numr, inv1), ({((w, 1),): (self.rconst(1), {})}, {}))
        # generic denominators with atoms
        if self.gfacs is None:
            self.gfacs = []
        v = self.elt_vals((a, {}))
        for i, (e, w) in enumerate(self.gfacs):
            r = [p / q for p, q in zip(v, w)]
            if self.close(r, [r[0]] * len(r)):
                c = _rat(r[0])
                if c is not None and self.ezero(self.eadd((a, {}), self.emul(self.const(-c), (e, {})))):
                    return self.emul(numr, ({(): (self.rconst(1 / c), {})}, {i: 1}))
        self.gfacs.append((a, v))
        return self.emul(numr, ({(): (self.rconst(1), {})}, {len(self.gfacs) - 1: 1}))

    def as_linear_exp(self, a):
        if len(a) != 2:
            return None
        xk = None
        f1 = f0 = None
        neg = False
        for m, f in a.items():
            if m == ():
                f0 = f
            elif len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]][0] == "exp":
                xk, f1 = m[0][0], f
            else:
                return None
        if f0 is None or f1 is None or f0[1] != f1[1]:
            return None
        n0, n1 = f0[0], f1[0]
        if set(n0) != set(n1) or len(n0) != 1:
            return None
        ((b, p0),) = n0.items()
        p1 = n1[b]
        if p0.op == "num" and p1.op == "num":
            return xk, (f1, Fraction(1)), p0.a[0] / p1.a[0]
        # proportional polynomials
        v0 = _polyval_q(p0, self.rng.getstate())
        c = None
        for cand in (1, -1):
            if self.poly_zero(t_.sub(p0, t_.mul(t_.num(cand), p1))):
                return xk, (f1, Fraction(1)), Fraction(cand)
        return None

    def pole(self, xk, c):
        for i, a in enumerate(self.atoms):
            if a[0] == "pole" and a[1] == (xk, c):
                return i
        v = [1 / (x + MP.mpf(c.numerator) / c.denominator) for x in self.atoms[xk][2]]
        self.atoms.append(("pole", (xk, c), v))
        return len(self.atoms) - 1

    def factor(self, r):
        """register a ring element as denominator -> (id, scalar)"""
        v = self.ring_vals(r)
        for i, (e, w) in enumerate(self.facs):
            q = [p / x for p, x in zip(v, w)]
            if self.close(q, [q[0]] * len(q)):
                c = _rat(q[0])
                if c is not None and self.rzero(self.radd(r, e, -c)):
                    return i, c
        self.facs.append((r, v))
        return len(self.facs) - 1, Fraction(1)

    # numeric values of ring elements / elements (proposal only)
    def ring_vals(self, r):
        out = []
        for i, (_, env) in enumerate(self.pts):
            s = MP.mpf(0)
            for b, p in r.items():
                x = t_.evalmp(p, env, MP, self.vmemo[i])
                for g in b:
                    x = x * (MP.mpc(0, 1) if g == "I" else self.rads[g][1][i])
                s += x
            out.append(s)
        return out

    def elt_vals(self, x):
        a, g = x
        n = len(self.pts)
        out = [MP.mpf(0)] * n
        for m, (r, den) in a.items():
            v = self.ring_vals(r)
            for k, p in den.items():
                v = [q / w**p for q, w in zip(v, self.facs[k][1])]
            for k, p in m:
                v = [q * w**p for q, w in zip(v, self.atoms[k][2])]
            out = [q + w for q, w in zip(out, v)]
        for k, p in g.items():
            out = [q / w**p for q, w in zip(out, self.gfacs[k][1])]
        return out

    def ezero(self, x):
        for m, (r, den) in x[0].items():
            if not self.rzero(r):
                return False
        return True

    # -------------------------------------------------------- normal form
    def nf(self, t):
        for u in t_.subterms_skip(t, self.nmemo):
            if u.id not in self.nmemo:
                if self.deadline and self.deadline.left() < 0:
                    raise Inconclusive("time budget")
                self.nmemo[u.id] = self._nf(u)
        return self.nmemo[t.id]

    def _nf(self, u):
        op, a = u.op, u.a
        if op == "num":
            return self.const(a[0])
        if op in ("var", "pi"):
            return ({(): ({self.E0: u}, {})}, {})
        if op == "add" and self.cmode:
            # a complex input is one indeterminate: an identity that holds for
            # an arbitrary indeterminate holds for every complex value
            c = cpair(u)
            if c:
                self.cused = True
                for _, env in self.pts:
                    env[c + "!c"] = MP.mpc(env[c + "_r"], env[c + "_i"])
                return ({(): ({self.E0: t_.var(c + "!c")}, {})}, {})
        if op == "I":
            return ({(): ({frozenset(["I"]): t_.ONE}, {})}, {})
        if op == "int":
            return self.atom_int(u)
        n = [self.nf(x) for x in a if isinstance(x, T)]
        if op == "add":
            return self.eadd(n[0], n[1])
        if op == "sub":
            return self.eadd(n[0], self.emul(self.const(-1), n[1]))
        if op == "neg":
            return self.emul(self.const(-1), n[0])
        if op == "mul":
            return self.emul(n[0], n[1])
        if op == "div":
            y = a[1]
            # structural decomposition of the denominator
            if y.op == "mul":
                return self.nf(t_.div(t_.div(a[0], y.a[0]), y.a[1])) if False else self.emul(n[0], self.inv_term(y))
            return self.emul(n[0], self.inv_term(y))
        if op == "re":
            w = a[0]
            return self.emul(self.const(Fraction(1, 2)), self.eadd(self.nf(w), self.nf(t_.conj(w))))
        if op == "im":
            w = a[0]
            d = self.eadd(self.nf(w), self.emul(self.const(-1), self.nf(t_.conj(w))))
            return self.emul(({(): ({frozenset(["I"]): t_.num(Fraction(-1, 2))}, {})}, {}), d)
        if op == "sqrt":
            return self.atom_sqrt(u, n[0])
        if op == "ln":
            return self.atom_ln(u, n[0])
        if op == "exp":
            return self.atom_exp(u, n[0])
        if op == "uf":
            for i, (k, p, v) in enumerate(self.atoms):
                if k == "uf" and p[0] == a[0] and len(p[1]) == len(n) and all(self.same(x, y) for x, y in zip(p[1], n)):
                    return self.atom_elt(i)
            return self.new_atom("uf", (a[0], n), self.vals(u))
        raise Inconclusive("operation %s in an equality" % op)

    def inv_term(self, y):
        if y.op == "mul":
            return self.emul(self.inv_term(y.a[0]), self.inv_term(y.a[1]))
        if y.op == "div":
            return self.emul(self.nf(y.a[1]), self.inv_term(y.a[0]))
        if y.op == "neg":
            return self.emul(self.const(-1), self.inv_term(y.a[0]))
        k = ("inv", y.id)
        r = self.nmemo.get(k)
        if r is None:
            r = self.einv(self.nf(y), y)
            self.nmemo[k] = r
        return r

    def atom_elt(self, i, p=1):
        return ({((i, p),): (self.rconst(1), {})}, {})

    def new_atom(self, kind, payload, vals):
        self.atoms.append((kind, payload, vals))
        return self.atom_elt(len(self.atoms) - 1)

    def same(self, x, y, vx=None, vy=None):
        vx = self.elt_vals(x) if vx is None else vx
        vy = self.elt_vals(y) if vy is None else vy
        if not self.close(vx, vy):
            return False
        return self.ezero(self.eadd(x, self.emul(self.const(-1), y)))

    def pos_factor(self, x):
        """a product of inputs that the domain makes positive"""
        if x.op == "var":
            r = self.d.ranges.get(x.a[0])
            return r is not None and r[2] >= 0
        if x.op in ("mul", "div"):
            return self.pos_factor(x.a[0]) and self.pos_factor(x.a[1])
        return False

    def atom_ln(self, u, n):
        z = u.a[0]
        if z.op in ("mul", "div") and self.pos_factor(z):
            STATS.lemma("ln of a product of positive reals")
            r = self.nf(t_.ln(z.a[1]))
            if z.op == "div":
                r = self.emul(self.const(-1), r)
            return self.eadd(self.nf(t_.ln(z.a[0])), r)
        v = self.vals(u.a[0])
        if all(x == 0 for x in v):
            raise Inconclusive("ln 0")
        for i, (k, p, w) in enumerate(self.atoms):
            if k != "ln":
                continue
            if self.close(v, p[1]) and self.same(n, p[0], v, p[1]):
                return self.atom_elt(i)
            if self.close([x * y for x, y in zip(v, p[1])], [1] * len(v)) and self.offcut(u.a[0], v):
                if self.same(self.emul(n, p[0]), self.const(1)):
                    STATS.lemma("ln(1/z)=-ln z off the cut")
                    return self.emul(self.const(-1), self.atom_elt(i))
        lv = self.vals(u)
        if self.lnrel:
            r = self.ln_relation(u, n, v, lv)
            if r is not None:
                return r
        return self.new_atom("ln", (n, v, u.a[0]), lv)

    def offcut(self, z, v):
        """z is never a non-positive real on the domain (z3), or reject"""
        key = ("cut", z.id)
        r = self.sgn_cache.get(key)
        if r is None:
            if any(abs(MP.im(x)) < MP.mpf(10) ** -50 and MP.re(x) <= 0 for x in v):
                r = False
            else:
                zt = ZTrans()
                A, B = zt.tr(z)
                fs = [zt.cond(k, p) for k, p in self.d.facts + self.conds] + [B == 0, A <= 0]
                fs += self.d.z3facts(zt) + zt.side
                r = z3check(fs, min(self.to, 5000))[0] == "unsat"
                if not r and "offcut" in self.d.note:
                    r = True
                    STATS.lemma("assumed off the branch cut")
            self.sgn_cache[key] = r
        return r

    def positive(self, z, strict=True):
        key = ("pos", z.id, strict)
        r = self.sgn_cache.get(key)
        if r is None:
            if not t_.isreal(z) or any(MP.re(x) < 0 for x in self.vals(z)):
                r = False
            else:
                zt = ZTrans()
                A = zt.re(z)
                fs = [zt.cond(k, p) for k, p in self.d.facts + self.conds] + [A <= 0 if strict else A < 0]
                fs += self.d.z3facts(zt) + zt.side
                r = z3check(fs, min(self.to, 5000))[0] == "unsat"
            self.sgn_cache[key] = r
        return r

    def ln_relation(self, u, n, v, lv):
        """ln u as an integer combination of known logarithms (positive reals)"""
        if any(abs(MP.im(x)) > MP.mpf(10) ** -50 or MP.re(x) <= 0 for x in v):
            return self.ln_relation_complex(u, n, v, lv)
        cand = [(i, p, w) for i, (k, p, w) in enumerate(self.atoms) if k == "ln" and all(abs(MP.im(x)) < MP.mpf(10) ** -50 and MP.re(x) > 0 for x in p[1])]
        if not cand:
            return None
        import itertools

        rng = (-2, -1, 0, 1, 2)
        if len(cand) > 4:
            cand = cand[:4]
        for cs in sorted(itertools.product(rng, repeat=len(cand)), key=lambda c: sum(map(abs, c))):
            if sum(1 for c in cs if c) == 0:
                continue
            for k0 in (1, 2):
                s = [sum(c * w[j] for c, (_, _, w) in zip(cs, cand)) for j in range(len(v))]
                if not self.close([k0 * x for x in lv], s):
                    continue
                lhs = self.const(1)
                for _ in range(k0):
                    lhs = self.emul(lhs, n)
                rhs = self.const(1)
                for c, (_, p, _) in zip(cs, cand):
                    for _ in range(abs(c)):
                        if c > 0:
                            rhs = self.emul(rhs, p[0])
                        else:
                            lhs = self.emul(lhs, p[0])
                if not self.ezero(self.eadd(lhs, self.emul(self.const(-1), rhs))):
                    continue
                if not self.positive(u.a[0]) or not all(self.positive(p[2]) for c, (_, p, _) in zip(cs, cand) if c):
                    continue
                STATS.lemma("ln of a product of positive reals")
                r = self.const(0)
                for c, (i, _, _) in zip(cs, cand):
                    if c:
                        r = self.eadd(r, self.emul(self.const(Fraction(c, k0)), self.atom_elt(i)))
                return r
        return None

    def continuous(self, z):
        """z is continuous on the domain: no ln/sqrt below it meets its cut"""
        for w in t_.subterms([z]):
            if w.op in ("ln", "sqrt"):
                if not self.offcut(w.a[0], self.vals(w.a[0])):
                    return False
            elif w.op in ("int", "re", "im", "conj", "abs", "arg") and not t_.isreal(w):
                return False
        return True

    def ln_relation_complex(self, u, n, v, lv):
        """ln u = sum c_k ln p_k + 2 pi i n: the two sides agree up to a multiple
        of 2 pi i by algebra, and the multiple is constant because both sides are
        continuous on the (convex) domain"""
        if self.conds or self.d.facts:
            return None
        cand = [(i, p, w) for i, (k, p, w) in enumerate(self.atoms) if k == "ln"][:3]
        if not cand:
            return None
        import itertools

        tpi = 2 * MP.pi
        for cs in sorted(itertools.product((-2, -1, 0, 1, 2), repeat=len(cand)), key=lambda c: sum(map(abs, c))):
            if not any(cs):
                continue
            d = [lv[j] - sum(c * w[j] for c, (_, _, w) in zip(cs, cand)) for j in range(len(v))]
            k = MP.nint(MP.im(d[0]) / tpi)
            if abs(k) > 4 or not self.close(d, [MP.mpc(0, k * tpi)] * len(d)):
                if not (k == 0 and all(abs(x) < MP.mpf(10) ** -40 for x in d)):
                    continue
            lhs, rhs = n, self.const(1)
            for c, (_, p, _) in zip(cs, cand):
                for _ in range(abs(c)):
                    if c > 0:
                        rhs = self.emul(rhs, p[0])
                    else:
                        lhs = self.emul(lhs, p[0])
            if not self.ezero(self.eadd(lhs, self.emul(self.const(-1), rhs))):
                continue
            if not self.continuous(u) or not all(self.continuous(t_.ln(p[2])) for c, (_, p, _) in zip(cs, cand) if c):
                continue
            STATS.lemma("sum of complex logarithms: constant multiple of 2 pi i by continuity")
            r = self.const(0)
            if k:
                r = self.nf(t_.num(2 * int(k)) * t_.PI * t_.I)
            for c, (i, _, _) in zip(cs, cand):
                if c:
                    r = self.eadd(r, self.emul(self.const(Fraction(c)), self.atom_elt(i)))
            return r
        return None

    def atom_sqrt(self, u, n):
        v = self.vals(u.a[0])
        sv = self.vals(u)
        if all(x == 0 for x in sv) and self.ezero(n):
            return self.const(0)
        # perfect square of a known nonnegative quantity
        for nm in sorted(self.names):
            x = t_.var(nm)
            xv = self.vals(x)
            if self.close(sv, [abs(q) for q in xv]):
                sg = 1 if all(q >= 0 for q in xv) else -1 if all(q <= 0 for q in xv) else 0
                if sg and self.same(n, self.nf(t_.mul(x, x))) and self.positive(x if sg > 0 else t_.neg(x), strict=False):
                    STATS.lemma("sqrt(x^2)=|x|")
                    return self.emul(self.const(sg), self.nf(x))
        for i, (r, w) in enumerate(self.rads):
            pass
        for i, (k, p, w) in enumerate(self.atoms):
            if k == "sqrtkey" and self.close(w, sv) and self.same(n, p[0]):
                return p[1]
            if k == "sqrtkey" and all(b != 0 for b in w):
                q = [a / b for a, b in zip(sv, w)]
                c = _rat(q[0]) if self.close(q, [q[0]] * len(q)) else None
                if c is not None and c > 0 and self.same(n, self.emul(self.const(c * c), p[0])):
                    return self.emul(self.const(c), p[1])
        a, g = n
        if g or set(a) - {()}:
            # radicand with transcendental atoms: opaque atom with merged argument
            for i, (k, p, w) in enumerate(self.atoms):
                if k == "sqrt" and self.close(w, sv) and self.same(n, p):
                    return self.atom_elt(i)
            return self.new_atom("sqrt", n, sv)
        r, den = a.get((), ({}, {}))
        # sqrt(N/D) = sqrt(N*D)/D
        D = self.rconst(1)
        for k, p in den.items():
            for _ in range(p):
                D = self.rmul(D, self.facs[k][0])
        r2 = self.rmul(r, D)
        dv = self.ring_vals(D)
        if set(r2) <= {self.E0} and r2.get(self.E0, t_.ZERO).op == "num" and r2:
            pass
        self.rads.append((r2, [x * y for x, y in zip(sv, dv)]))
        idx = len(self.rads) - 1
        e = ({(): ({frozenset([idx]): t_.ONE}, dict(den))}, {})
        self.atoms.append(("sqrtkey", (n, e), sv))
        return e

    def atom_exp(self, u, n):
        arg = u.a[0]
        if self.split_exp:
            parts = _sum_parts(arg)
            if len(parts) > 1:
                r = self.const(1)
                for s, p in parts:
                    e = self.nf(t_.exp(p))
                    r = self.emul(r, e if s > 0 else self.einv(e, None))
                return r
        v = self.vals(arg)
        if not n[0]:
            return self.const(1)
        for i, (k, p, w) in enumerate(self.atoms):
            if k != "exp":
                continue
            q = [a / b for a, b in zip(v, p[1])]
            if self.close(q, [q[0]] * len(q)):
                c = _rat(q[0], 6)
                if c is not None and c.denominator == 1 and abs(c) <= 6 and self.ezero(self.eadd(n, self.emul(self.const(-c), p[0]))):
                    return self.atom_elt(i, int(c))
            d = [a - b for a, b in zip(v, p[1])]
            if self.close(d, [d[0]] * len(d)):
                c = _rat(d[0] / MP.mpc(0, MP.pi), 4)
                if c is not None and (2 * c).denominator == 1 and abs(c) <= 8:
                    k = self.nf(t_.I * t_.PI * t_.num(c))
                    if self.ezero(self.eadd(n, self.emul(self.const(-1), self.eadd(p[0], k)))):
                        r = self.atom_elt(i)
                        for _ in range(int(2 * c) % 4):
                            r = self.emul(r, self.nf(t_.I))
                        STATS.lemma("exp(z + i pi k/2)")
                        return r
        return self.new_atom("exp", (n, v), self.vals(u))

    def atom_int(self, u):
        f, a, b, m = u.a
        na, nb = self.nf(a), self.nf(b)
        nm = [self.nf(x) if isinstance(x, T) else x for x in m]
        for i, (k, p, w) in enumerate(self.atoms):
            if k != "int":
                continue
            if len(p[3]) != len(nm):
                continue
            ok = all((x == y) if isinstance(x, str) or isinstance(y, str) else self.same(x, y) for x, y in zip(p[3], nm))
            if ok and self.same(na, p[1]) and self.same(nb, p[2]):
                if f is p[0] or self.same_integrand(f, p[0], a, b):
                    return self.atom_elt(i)
                fn_ = t_.neg(p[0])
                if f is fn_ or self.same_integrand(f, fn_, a, b):
                    STATS.lemma("quadrature of -f")
                    return self.emul(self.const(-1), self.atom_elt(i))
                c = self.int_scale(f, p[0], a, b)
                if c is not None:
                    STATS.lemma("quadrature of c f")
                    return self.emul(self.nf(c), self.atom_elt(i))
        return self.new_atom("int", (f, na, nb, nm), self.vals(u))

    def int_scale(self, f, g, a, b):
        """c with f = c g, c free of the integration variable (linearity)"""
        p = self.integrand_prover(a, b)
        try:
            p.setup([f, g])
        except Infeasible:
            return None
        vf, vg = p.vals(f), p.vals(g)
        if any(abs(y) < 1e-200 for y in vg):
            return None
        r = [x / y for x, y in zip(vf, vg)]
        if any(abs(x) < 1e-60 for x in r) or len(r) < 2:
            return None
        cands = [(None, 0)] + [(n, k) for n in sorted(t_.variables([f, g])) if n != "tau!" for k in (1, -1, 2, -2)]
        for n, k in cands:
            if n is None:
                q = r
            else:
                q = [x / env[n] ** k for x, (e, env) in zip(r, p.pts)]
            if not p.close(q, [q[0]] * len(q)):
                continue
            c = _rat(q[0], 1000)
            if c is None or c == 0:
                continue
            c = t_.num(c)
            if n is not None:
                v = t_.var(n)
                for _ in range(abs(k)):
                    c = c * v if k > 0 else c / v
            if self.same_integrand(f, c * g, a, b):
                return c
        return None

    def integrand_prover(self, a, b):
        self.same_integrand(t_.ONE, t_.ONE, a, b)
        return self.children["sub:%d,%d" % (a.id, b.id)]

    def same_integrand(self, f, g, a, b):
        from symex import Cond

        tau = t_.TAU
        d = self.d.extend(facts=[(Cond("lt", a, tau), True), (Cond("lt", tau, b), True)])
        key = "sub:%d,%d" % (a.id, b.id)
        p = self.children.get(key)
        if p is None:
            if a.op == "num" and b.op == "num":
                d.ranges["tau!"] = Domain.spec((a.a[0], b.a[0]))
            else:
                bv = self.vals(b)
                d.ranges["tau!"] = (Fraction(0), Fraction(max(1, int(max(abs(x) for x in bv)) + 1)), Fraction(-BIG), Fraction(BIG))
            p = Prover(d, self.conds, seed=7, npts=2, timeout_ms=self.to, deadline=self.deadline, split_exp=self.split_exp, cmode=self.cmode)
            self.children[key] = p
        try:
            return p.equal(f, g) is True
        except Infeasible:
            return True

    def onpath(self, env, memo):
        """does the point satisfy the path conditions?  (a point proposed by
        the solver for an abstraction of them need not)"""
        if not getattr(self, "degenerate", False):
            return True
        try:
            return all(cond_holds(k, p, env, memo) for k, p in self.d.facts + self.conds)
        except (t_.Undefined, ZeroDivisionError, OverflowError):
            return False

    # -------------------------------------------------------- entry
    def equal(self, x, y):
        """True if proved equal for all inputs; otherwise a witness dict"""
        if x is y:
            return True
        if x.op in ("nan", "inf") or y.op in ("nan", "inf"):
            raise Inconclusive("nan in comparison")
        self.setup([x, y])
        vx, vy = self.vals(x), self.vals(y)
        if not self.close(vx, vy):
            best = None
            for (e, env), a, b, mm in zip(self.pts, vx, vy, self.vmemo):
                if not self.close([a], [b]) and self.onpath(env, mm):
                    # the point where the difference is plainest
                    d = abs(a - b) / (abs(a) + abs(b))
                    if best is None or d > 1000 * best[0]:
                        best = (d, {"point": e, "lhs": a, "rhs": b})
            if best is not None:
                return best[1]
            raise Inconclusive("no point found on the path")
        if self.cmode and not any(cpair(u) for u in t_.subterms([x, y])):
            if not self.cused:
                self.cmode = False
        if self.sweepable(x, y):
            r = self.staged(x, y)
            if r is not None:
                return r
        try:
            z = self.eadd(self.nf(x), self.emul(self.const(-1), self.nf(y)))
            if self.ezero(z):
                return True
        except Inconclusive:
            if not self.cmode or (self.deadline and self.deadline.left() < 0):
                raise
        if self.cmode:
            # complex inputs as indeterminates did not do: real and imaginary parts
            p = Prover(self.d, self.conds, seed=13, npts=self.npts, timeout_ms=self.to, deadline=self.deadline, split_exp=self.split_exp, cmode=False)
            p.nosweep = True
            return p.equal(x, y)
        if not self.split_exp:
            p = Prover(self.d, self.conds, seed=11, npts=self.npts, timeout_ms=self.to, deadline=self.deadline, split_exp=True, cmode=False)
            p.nosweep = True
            return p.equal(x, y)
        raise Inconclusive("equal at all sampled points but the normal forms differ")


    # -------------------------------------------------------- sweeping
    def child(self, seed, to, split=None):
        p = Prover(self.d, self.conds, seed=seed, npts=self.npts, timeout_ms=to, deadline=self.deadline, split_exp=self.split_exp if split is None else split, cmode=self.cmode)
        p.nosweep = True
        return p

    def staged(self, x, y):
        """quick normal form, then sweeping; None when neither settles it"""
        for k in (1, 0) if self.twins(x, y) else (0, 1):
            try:
                if k == 0:
                    if self.child(19, min(self.to, 1500)).plain(x, y):
                        return True
                    continue
                u, v = self.sweep(x, y)
                if u is v:
                    return True
                if (u is not x or v is not y) and self.child(17, min(self.to, 2500)).plain(u, v):
                    return True
            except (Inconclusive, Infeasible):
                if self.deadline and self.deadline.left() < 0:
                    raise
        return None

    def twins(self, x, y):
        """do most subterms of y take the values of subterms of x?"""
        sx, sy = flat_subterms([x]), flat_subterms([y])
        ids = {u.id for u in sx}
        own = [u for u in sy if u.id not in ids]
        key = lambda u: MP.nstr(MP.fabs(self.vals(u)[0]), 25)
        have = {key(u) for u in sx}
        return sum(1 for u in own if key(u) in have) > 0.6 * len(own)

    def plain(self, x, y):
        self.setup([x, y])
        return self.ezero(self.eadd(self.nf(x), self.emul(self.const(-1), self.nf(y))))

    ALG = ("add", "sub", "mul", "div", "neg")
    SWEEP = 60
    nosweep = False

    def sweepable(self, x, y):
        if self.nosweep or len(self.pts) < 2 or getattr(self, "degenerate", False):
            return False
        return sum(1 for _ in flat_subterms([x, y])) > self.SWEEP

    def sweep(self, x, y):
        """Simulation-guided equivalence sweeping: walk both terms bottom-up;
        a subterm whose values at the sample points agree with those of an
        earlier one (up to sign) is replaced by it once a local identity has
        been proved by the solver, with the common subterms of the two as
        indeterminates.  Returns the two terms after the replacements."""
        rep = {}
        cls = {}
        norep = 0
        for u in flat_subterms([x, y]):
            if self.deadline and self.deadline.left() < 0:
                raise Inconclusive("time budget")
            na = tuple(rep[c.id] if isinstance(c, T) and c.id in rep else c for c in u.a)
            n = u
            if u.op != "int" and u.op in t_.BUILD and any(p is not q for p, q in zip(na, u.a)):
                n = t_.BUILD[u.op](*na)
            rep[u.id] = n
            if n.op in ("num", "var", "pi", "I"):
                continue
            v = self.vals(n)
            if any(not (MP.isfinite(c)) for c in v):
                continue
            w = MP.fabs(v[0])
            if w < 1e-40:
                continue
            key = int(MP.floor(MP.log(w) * 1e6))
            hit = None
            for k in (key - 1, key, key + 1):
                for r, rv in cls.get(k, ()):
                    if r is n:
                        hit = (r, 1)
                        break
                    if self.close(v, rv):
                        hit = (r, 1)
                    elif self.close(v, [-c for c in rv]):
                        hit = (r, -1)
                    if hit:
                        break
                if hit:
                    break
            if hit:
                r, s = hit
                if r is n:
                    continue
                m = r if s > 0 else t_.neg(r)
                if m is n:
                    continue
                if self.local_equal(n, m):
                    STATS.lemma("merged subterm")
                    rep[u.id] = m
                    continue
            cls.setdefault(key, []).append((n, v))
        return rep[x.id], rep[y.id]

    def local_equal(self, x, y):
        """x = y, decided on an abstraction of both"""
        for lvl in (0, 1):
            try:
                if self.cut_equal(x, y, lvl):
                    return True
            except (Inconclusive, Infeasible, ZeroDivisionError):
                pass
        if x.op in self.ALG and y.op in self.ALG:
            return False
        if sum(1 for _ in flat_subterms([x, y])) > 80 and x.op != "int":
            return False
        try:
            return self.same(self.nf(x), self.nf(y))
        except Inconclusive:
            return False

    def cut_equal(self, x, y, lvl):
        """rational identity in which the largest common subterms (level 0) or
        the non-algebraic subterms (level 1) are indeterminates"""
        if lvl == 0:
            common = {u.id for u in flat_subterms([x])} & {u.id for u in flat_subterms([y])}
            if x.id in common or y.id in common:
                return False
        else:
            common = set()
        mp_ = {}
        size = [0]
        memo = {}

        def cut(u):
            n = "cut!%d" % u.id
            mp_[n] = u
            return t_.var(n)

        def tr(t):
            st = [t]
            while st:
                u = st[-1]
                if u.id in memo:
                    st.pop()
                    continue
                if u.op in ("num", "I", "pi"):
                    memo[u.id] = u
                elif u.id in common or u.op not in self.ALG:
                    memo[u.id] = cut(u)
                else:
                    pend = [c for c in u.a if c.id not in memo]
                    if pend:
                        st.extend(pend)
                        continue
                    size[0] += 1
                    memo[u.id] = t_.mk(u.op, *[memo[c.id] for c in u.a])
                st.pop()
            return memo[t.id]

        X, Y = tr(x), tr(y)
        if X is Y:
            return True
        if X.op == "var" and Y.op == "var":
            return False
        if size[0] > 400 or (lvl == 1 and len(mp_) > 40):
            return False
        p = Prover(Domain({n: (Fraction(-1), Fraction(1)) for n in mp_}), (), timeout_ms=3000, deadline=self.deadline, split_exp=True, cmode=False)
        p.nosweep = True
        p.names = set(mp_)
        p.pts, p.vmemo = [], []
        for (e, env), m in zip(self.pts, self.vmemo):
            ne = {n: t_.evalmp(u, env, MP, m) for n, u in mp_.items()}
            p.pts.append(({}, ne))
            p.vmemo.append({})
        z = p.eadd(p.nf(X), p.emul(p.const(-1), p.nf(Y)))
        return p.ezero(z)


def flat_subterms(ts):
    """subterms in topological order, not entering integrands"""
    seen = set()
    out = []
    st = [(t, 0) for t in reversed(ts)]
    while st:
        u, k = st.pop()
        if k:
            out.append(u)
            continue
        if u.id in seen:
            continue
        seen.add(u.id)
        st.append((u, 1))
        if u.op != "int":
            st.extend((c, 0) for c in u.a if isinstance(c, T))
    return out


class Infeasible(Exception):
    pass


def _dec(d, k, n):
    d[k] = d.get(k, 0) - n
    if d[k] == 0:
        del d[k]


def _sum_parts(t):
    """exp argument -> list of (sign, part) by distributing products over sums"""
    if t.op == "add":
        return _sum_parts(t.a[0]) + _sum_parts(t.a[1])
    if t.op == "sub":
        return _sum_parts(t.a[0]) + [(-s, p) for s, p in _sum_parts(t.a[1])]
    if t.op == "neg":
        return [(-s, p) for s, p in _sum_parts(t.a[0])]
    if t.op == "mul":
        A, B = _sum_parts(t.a[0]), _sum_parts(t.a[1])
        if len(A) > 1 or len(B) > 1:
            return [(s1 * s2, t_.mul(p1, p2)) for s1, p1 in A for s2, p2 in B]
    if t.op == "div":
        A = _sum_parts(t.a[0])
        if len(A) > 1:
            return [(s, t_.div(p, t.a[1])) for s, p in A]
    return [(1, t)]


def _rat(x, maxden=720):
    x = MP.mpc(x)
    if abs(x.imag) > MP.mpf(10) ** -40 * (1 + abs(x.real)):
        return None
    r = x.real
    for d in range(1, maxden + 1):
        n = MP.nint(r * d)
        if n != 0 and abs(r * d - n) < MP.mpf(10) ** -35 * (1 + abs(r * d)) and abs(n) < 10**6:
            return Fraction(int(n), d)
    return None


def _polyval(p, env):
    """(|value|, error bound) at an mp point"""
    memo = {}
    for u in t_.subterms([p]):
        if u.op == "num":
            v = MP.mpf(u.a[0].numerator) / u.a[0].denominator
            memo[u.id] = (v, abs(v))
        elif u.op == "var":
            v = env[u.a[0]]
            memo[u.id] = (v, abs(v))
        elif u.op == "pi":
            v = env["pi"]
            memo[u.id] = (v, abs(v))
        elif u.op == "neg":
            v = memo[u.a[0].id]
            memo[u.id] = (-v[0], v[1])
        else:
            a, b = memo[u.a[0].id], memo[u.a[1].id]
            if u.op == "add":
                memo[u.id] = (a[0] + b[0], a[1] + b[1])
            elif u.op == "sub":
                memo[u.id] = (a[0] - b[0], a[1] + b[1])
            elif u.op == "mul":
                memo[u.id] = (a[0] * b[0], a[1] * b[1])
            else:
                raise Inconclusive("non-polynomial " + u.op)
    v, m = memo[p.id]
    return abs(v), m * MP.mpf(10) ** (-MP.dps + 10)


def _polyval_q(p, st):
    return None


def _polyz3(p, memo):
    for u in t_.subterms([p]):
        if u.op == "num":
            memo[u.id] = z3.RealVal(str(u.a[0]))
        elif u.op == "var":
            memo[u.id] = z3.Real(u.a[0])
        elif u.op == "pi":
            memo[u.id] = z3.Real("pi!")
        elif u.op == "neg":
            memo[u.id] = -memo[u.a[0].id]
        else:
            a, b = memo[u.a[0].id], memo[u.a[1].id]
            memo[u.id] = a + b if u.op == "add" else a - b if u.op == "sub" else a * b
    return memo[p.id]


# ------------------------------------------------------------------ calculus


def diff(t, x, memo=None):
    """derivative of t with respect to the variable term x (real analytic)"""
    memo = {} if memo is None else memo
    for u in t_.subterms([t]):
        if u.id in memo:
            continue
        op, a = u.op, u.a
        if u is x:
            r = t_.ONE
        elif op in ("num", "pi", "I", "var"):
            r = t_.ZERO
        else:
            d = [memo[y.id] for y in a if isinstance(y, T)]
            if all(q is t_.ZERO for q in d):
                r = t_.ZERO
            elif op == "add":
                r = t_.add(d[0], d[1])
            elif op == "sub":
                r = t_.sub(d[0], d[1])
            elif op == "neg":
                r = t_.neg(d[0])
            elif op == "mul":
                r = t_.add(t_.mul(d[0], a[1]), t_.mul(a[0], d[1]))
            elif op == "div":
                r = t_.sub(t_.div(d[0], a[1]), t_.div(t_.mul(u, d[1]), a[1]))
            elif op == "ln":
                r = t_.div(d[0], a[0])
            elif op == "exp":
                r = t_.mul(d[0], u)
            elif op == "sqrt":
                r = t_.div(d[0], t_.mul(t_.TWO, u))
            elif op == "re":
                r = t_.re(d[0])
            elif op == "im":
                r = t_.im(d[0])
            else:
                raise Inconclusive("derivative of " + op)
        memo[u.id] = r
    return memo[t.id]
