"""Truncated Laurent expansion of terms in a real variable eps -> 0+.

A series is (v, [c0, c1, ...]) = eps^v * (c0 + c1 eps + ... + O(eps^len)).
Coefficients are terms; whether a coefficient vanishes identically is decided
by the prover (never by sampling alone).  ln eps is carried along as a symbol
of its own: it is transcendental over the Laurent series."""
import alg
import term as t_
from term import T


LOG = t_.var("ln!eps")  # ln eps, independent of every power of eps


class Short(Exception):
    """not enough orders retained"""


class NeedSplit(Exception):
    """the sign of a real term has to be fixed before expanding"""

    def __init__(self, t):
        self.t = t


class Series:
    def __init__(self, eps, prover, n=4):
        self.eps, self.pr, self.n = eps, prover, n
        self.memo = {}
        self.zc = {}

    def iszero(self, c):
        if c is t_.ZERO:
            return True
        r = self.zc.get(c.id)
        if r is None:
            r = self.pr.equal(c, t_.ZERO) is True
            self.zc[c.id] = r
        return r

    def norm(self, s):
        v, c = s
        while c and self.iszero(c[0]):
            c = c[1:]
            v += 1
        return (v, list(c))

    def const(self, x):
        return (0, [x] + [t_.ZERO] * (self.n - 1)) if x is not t_.ZERO else (self.n, [])

    def addl(self, a, b, sg=1):
        (va, ca), (vb, cb) = a, b
        end = min(va + len(ca), vb + len(cb))
        v = min(va, vb)
        out = []
        for k in range(v, end):
            x = ca[k - va] if va <= k < va + len(ca) else t_.ZERO
            y = cb[k - vb] if vb <= k < vb + len(cb) else t_.ZERO
            out.append(t_.add(x, y) if sg > 0 else t_.sub(x, y))
        if not out:
            return (end, [])
        return (v, out)

    def mull(self, a, b):
        (va, ca), (vb, cb) = a, b
        n = min(len(ca), len(cb))
        out = []
        for k in range(n):
            s = t_.ZERO
            for i in range(k + 1):
                if ca[i] is not t_.ZERO and cb[k - i] is not t_.ZERO:
                    s = t_.add(s, t_.mul(ca[i], cb[k - i]))
            out.append(s)
        return (va + vb, out)

    def divl(self, a, b):
        v, c = self.norm(b)
        if not c:
            raise Short()
        va, ca = a
        n = min(len(ca), len(c))
        out = []
        for k in range(n):
            s = ca[k]
            for i in range(1, k + 1):
                if c[i] is not t_.ZERO and out[k - i] is not t_.ZERO:
                    s = t_.sub(s, t_.mul(c[i], out[k - i]))
            out.append(t_.div(s, c[0]))
        return (va - v, out)

    def rest(self, s):
        """(c0, series of s/c0 - 1) for s with v == 0"""
        v, c = s
        return c[0], (1, [t_.div(x, c[0]) for x in c[1:]])

    def compose(self, x, coefs):
        """sum coefs[k] x^k for x = O(eps)"""
        r = self.const(coefs[0])
        p = None
        k = 1
        end = x[0] + len(x[1])
        r = (0, [coefs[0]] + [t_.ZERO] * (end - 1))
        p = x
        while p[0] < end and k < len(coefs):
            r = self.addl(r, (p[0], [t_.mul(coefs[k], y) for y in p[1]]))
            p = self.mull(p, x)
            k += 1
            if k > 40:
                break
        return r

    def run(self, t):
        for u in t_.subterms([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self.step(u)
        return self.memo[t.id]

    def step(self, u):
        op = u.op
        if u is self.eps:
            return (1, [t_.ONE] + [t_.ZERO] * (self.n - 1))
        if self.eps.a[0] not in self.vars(u):
            return self.const(u)
        a = [self.memo[x.id] for x in u.a if isinstance(x, T)]
        if op == "add":
            return self.addl(a[0], a[1])
        if op == "sub":
            return self.addl(a[0], a[1], -1)
        if op == "neg":
            return (a[0][0], [t_.neg(x) for x in a[0][1]])
        if op == "mul":
            return self.mull(a[0], a[1])
        if op == "div":
            return self.divl(a[0], a[1])
        if op in ("re", "im"):
            f = t_.re if op == "re" else t_.im
            return (a[0][0], [f(x) for x in a[0][1]])
        if op == "exp":
            v, c = self.norm(a[0])
            if v < 0:
                raise alg.Inconclusive("essential singularity")
            if v > 0:
                c0, x = t_.ZERO, (v, c)
            else:
                c0, x = c[0], (1, c[1:])
            e = t_.exp(c0)
            f = [e]
            for k in range(1, self.n + 2):
                f.append(t_.div(f[-1], t_.num(k)))
            return self.compose(x, f)
        if op == "sqrt":
            v, c = self.norm(a[0])
            if v % 2 or not c:
                raise alg.Inconclusive("sqrt branch point")
            c0, x = self.rest((0, c))
            h = t_.num("1/2")
            b = t_.sqrt(c0)
            f = [b]
            from fractions import Fraction

            q = Fraction(1)
            for k in range(1, self.n + 2):
                q = q * (Fraction(1, 2) - (k - 1)) / k
                f.append(t_.mul(t_.num(q), b))
            r = self.compose(x, f)
            return (r[0] + v // 2, r[1])
        if op == "ln":
            v, c = self.norm(a[0])
            if not c:
                raise Short()
            c0, x = self.rest((0, c))
            if self.pr.equal(c0, t_.ONE) is True:
                b = t_.ZERO
            else:
                b = self.lnlead(c0, c)
            from fractions import Fraction

            if v:  # ln(eps^v c) = v ln eps + ln c for eps > 0
                b = t_.add(b, t_.mul(t_.num(v), LOG))
            f = [b] + [t_.num(Fraction((-1) ** (k + 1), k)) for k in range(1, self.n + 2)]
            return self.compose(x, f)
        raise alg.Inconclusive("expansion of " + op)

    def lnlead(self, c0, c):
        pr = self.pr
        v = pr.vals(c0) if self.setup(c0) else None
        if pr.equal(t_.im(c0), t_.ZERO) is not True:
            if pr.offcut(c0, v):
                return t_.ln(c0)
            raise alg.Inconclusive("expansion point of ln not off the cut")
        r0 = t_.re(c0)
        if pr.positive(r0):
            return t_.ln(r0)
        if pr.positive(t_.neg(r0)):
            for ck in c[1:]:
                i = t_.im(ck)
                if self.iszero(i):
                    continue
                if pr.positive(i):
                    return t_.add(t_.ln(t_.neg(r0)), t_.mul(t_.I, t_.PI))
                if pr.positive(t_.neg(i)):
                    return t_.sub(t_.ln(t_.neg(r0)), t_.mul(t_.I, t_.PI))
                raise NeedSplit(i)
            raise alg.Inconclusive("side of the cut not decided")
        raise NeedSplit(r0)

    def setup(self, t):
        self.pr.setup([t])
        return True

    def vars(self, u):
        d = getattr(self, "_vars", None)
        if d is None:
            d = self._vars = {}
        s = d.get(u.id)
        if s is None:
            for w in t_.subterms([u]):
                if w.id in d:
                    continue
                if w.op == "var":
                    d[w.id] = frozenset([w.a[0]])
                else:
                    x = frozenset()
                    for y in w.a:
                        if isinstance(y, T):
                            x |= d[y.id]
                    if w.op == "int":
                        for y in w.a[3]:
                            if isinstance(y, T):
                                x |= d[y.id]
                    d[w.id] = x
            s = d[u.id]
        return s


def limit(t, eps, prover, order=0, nmax=12):
    """coefficients of eps^k for k <= order: (list of poles [(k,c)], c_order)"""
    n = 2
    while n <= nmax:
        s = Series(eps, prover, n)
        try:
            v, c = s.run(t)
            if v + len(c) > order:
                poles = [(v + i, x) for i, x in enumerate(c) if v + i < order]
                x = c[order - v] if order >= v else t_.ZERO
                return poles, x
        except Short:
            pass
        n += 2
    raise alg.Inconclusive("expansion did not reach order %d" % order)


def limit_equal(t, eps, target, domain, conds=(), order=0, depth=4, mk=None):
    """the eps^order coefficient of t equals target and there are no lower
    orders; splits the domain on undecided signs.  Returns True or a witness"""
    from symex import Cond

    mk = mk or (lambda d: alg.Prover(d, conds))
    if "ln!eps" not in domain.ranges:
        domain = domain.extend({"ln!eps": (-9, -2, -(10**6), 0)})
    try:
        pr = mk(domain)
        poles, c = limit(t, eps, pr, order)
        for _, x in poles:
            r = pr.equal(x, t_.ZERO)
            if r is not True:
                return r
        return pr.equal(c, target)
    except alg.Infeasible:
        return True
    except NeedSplit as e:
        if depth == 0:
            raise alg.Inconclusive("too many case splits in an expansion")
        for c in (Cond("lt", t_.ZERO, e.t), Cond("lt", e.t, t_.ZERO)):
            r = limit_equal(t, eps, target, domain.extend(facts=[(c, True)]), conds, order, depth - 1, mk)
            if r is not True:
                return r
        return True
