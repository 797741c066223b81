"""Hash-consed terms over the complex numbers (real arithmetic semantics).

A term denotes a complex number.  `var` terms are real.  The executor works on
f64 values which are terms known to be real; complex pairs are re()/im()
projections of a complex term, so complex-valued library operations stay whole.
"""
from fractions import Fraction
import math

_tab = {}


class T:
    __slots__ = ("op", "a", "id", "_conj", "__weakref__", "size")

    def __repr__(self):
        return show(self, 6)

    def __lt__(self, o):
        return self.id < o.id

    # arithmetic for writing reference expressions
    def __add__(self, o):
        return add(self, tonum(o))

    def __radd__(self, o):
        return add(tonum(o), self)

    def __sub__(self, o):
        return sub(self, tonum(o))

    def __rsub__(self, o):
        return sub(tonum(o), self)

    def __mul__(self, o):
        return mul(self, tonum(o))

    def __rmul__(self, o):
        return mul(tonum(o), self)

    def __truediv__(self, o):
        return div(self, tonum(o))

    def __rtruediv__(self, o):
        return div(tonum(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return powi(self, n)


def mk(op, *a):
    key = (op,) + tuple(x.id if isinstance(x, T) else ("k", x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a, t.id, t._conj = op, a, len(_tab), None
        _tab[key] = t
    return t


def num(x):
    return mk("num", Fraction(x))


ZERO, ONE, TWO = num(0), num(1), num(2)
PI = mk("pi")
I = mk("I")
NAN = mk("nan")
INF = mk("inf")  # stands for +-infinity where it is only tested, never used


def var(name):
    return mk("var", name)


def isnum(t):
    return t.op == "num"


def tonum(x):
    return x if isinstance(x, T) else num(x)


def add(x, y):
    if x.op == "num":
        if y.op == "num":
            return num(x.a[0] + y.a[0])
        if x is ZERO:
            return y
    if y is ZERO:
        return x
    if x is NAN or y is NAN:
        return NAN
    if y.op == "neg":
        return sub(x, y.a[0])
    if x.op == "neg":
        return sub(y, x.a[0])
    if x.id > y.id:
        x, y = y, x
    return mk("add", x, y)


def sub(x, y):
    if x is NAN or y is NAN:
        return NAN
    if x.op == "num" and y.op == "num":
        return num(x.a[0] - y.a[0])
    if y is ZERO:
        return x
    if x is ZERO:
        return neg(y)
    if x is y:
        return ZERO
    if y.op == "neg":
        return add(x, y.a[0])
    return mk("sub", x, y)


def neg(x):
    if x.op == "num":
        return num(-x.a[0])
    if x is NAN:
        return x
    if x.op == "neg":
        return x.a[0]
    if x.op == "sub":
        return sub(x.a[1], x.a[0])
    return mk("neg", x)


def mul(x, y):
    if x is NAN or y is NAN:
        return NAN
    if x.op == "num":
        if y.op == "num":
            return num(x.a[0] * y.a[0])
        if x is ZERO:
            return x
        if x is ONE:
            return y
        if x.a[0] == -1:
            return neg(y)
    if y.op == "num":
        return mul(y, x)
    if x.op == "neg":
        return neg(mul(x.a[0], y))
    if y.op == "neg":
        return neg(mul(x, y.a[0]))
    if x is I and y is I:
        return num(-1)
    if x.id > y.id and x.op != "num":
        x, y = y, x
    if y.op == "num":
        x, y = y, x
    if x.op == "num" and y.op == "mul" and y.a[0].op == "num":
        return mul(num(x.a[0] * y.a[0].a[0]), y.a[1])
    return mk("mul", x, y)


def div(x, y):
    if x is NAN or y is NAN:
        return NAN
    if y.op == "num":
        if y.a[0] == 0:
            return NAN
        return mul(num(1 / y.a[0]), x)
    if x is ZERO:
        return x
    if y.op == "neg":
        return neg(div(x, y.a[0]))
    if x.op == "neg":
        return neg(div(x.a[0], y))
    if x is y:
        return ONE
    if y is I:
        return neg(mul(I, x))
    return mk("div", x, y)


def powi(x, n):
    if n < 0:
        return div(ONE, powi(x, -n))
    r = ONE
    b = x
    while n:
        if n & 1:
            r = mul(r, b)
        b = mul(b, b)
        n >>= 1
    return r


def ln(x):
    if x is ONE:
        return ZERO
    if x is NAN:
        return x
    return mk("ln", x)


def exp(x):
    if x is ZERO:
        return ONE
    if x is NAN:
        return x
    if x.op == "neg":
        return div(ONE, exp(x.a[0]))
    return mk("exp", x)


def sqrt(x):
    if x.op == "num" and x.a[0] >= 0:
        n, d = x.a[0].numerator, x.a[0].denominator
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return num(Fraction(rn, rd))
    if x is NAN:
        return x
    return mk("sqrt", x)


def conj(t):
    if t._conj is not None:
        return t._conj
    # iterative to avoid recursion limits
    stack = [t]
    while stack:
        u = stack[-1]
        if u._conj is not None:
            stack.pop()
            continue
        op = u.op
        if op in ("num", "pi", "var", "nan", "inf", "int_re", "re", "im", "uf", "abs"):
            u._conj = u
            stack.pop()
            continue
        if op == "I":
            u._conj = neg(u)
            stack.pop()
            continue
        if op == "int":  # integral of a complex integrand over a real interval
            f, a, b, m = u.a
            if f._conj is None:
                stack.append(f)
                continue
            u._conj = mkint(f._conj, a, b, m)
            stack.pop()
            continue
        pend = [x for x in u.a if isinstance(x, T) and x._conj is None]
        if pend:
            stack.extend(pend)
            continue
        ca = [x._conj if isinstance(x, T) else x for x in u.a]
        if all(p is q for p, q in zip(ca, u.a)):
            u._conj = u
        else:
            u._conj = BUILD[op](*ca)
            if u._conj._conj is None:
                u._conj._conj = u
        stack.pop()
    return t._conj


def isreal(t):
    return conj(t) is t


def re(t):
    if isreal(t):
        return t
    if t.op == "neg":
        return neg(re(t.a[0]))
    return mk("re", t)


def im(t):
    if isreal(t):
        return ZERO
    if t.op == "neg":
        return neg(im(t.a[0]))
    return mk("im", t)


def mkc(a, b):
    """complex number with real part a, imaginary part b (both real terms)"""
    if a.op == "re" and b.op == "im" and a.a[0] is b.a[0]:
        return a.a[0]
    if a.op == "neg" and b.op == "neg":
        x = mkc(a.a[0], b.a[0])
        return neg(x)
    if a.op == "re" and b.op == "neg" and b.a[0].op == "im" and b.a[0].a[0] is a.a[0]:
        return conj(a.a[0])
    if b is ZERO:
        return a
    return add(a, mul(I, b))


def mkint(f, a, b, m):
    """opaque quadrature  INT_{a}^{b} f(tau) dtau  with method tuple m"""
    if a is b:
        return ZERO  # peroxide returns zero for an interval of zero width
    if a is NAN or b is NAN or f is NAN:
        return NAN
    return mk("int", f, a, b, m)


def absr(x):
    if x.op == "num":
        return num(abs(x.a[0]))
    return mk("abs", x)


BUILD = {"add": add, "sub": sub, "mul": mul, "div": div, "neg": neg, "ln": ln, "exp": exp, "sqrt": sqrt, "re": re, "im": im, "int": mkint, "abs": absr}


def rebuild(t, fn, memo=None):
    """bottom-up map; fn(op, newargs, t) -> T or None for the default"""
    memo = {} if memo is None else memo
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo:
            stack.pop()
            continue
        ch = [x for x in u.a if isinstance(x, T)]
        if u.op == "int":
            ch += [x for x in u.a[3] if isinstance(x, T)]
        pend = [x for x in ch if x.id not in memo]
        if pend:
            stack.extend(pend)
            continue
        na = tuple(memo[x.id] if isinstance(x, T) else x for x in u.a)
        if u.op == "int":
            na = na[:3] + (tuple(memo[x.id] if isinstance(x, T) else x for x in u.a[3]),)
        r = fn(u.op, na, u)
        if r is None:
            r = BUILD[u.op](*na) if u.op in BUILD else u
        memo[u.id] = r
        stack.pop()
    return memo[t.id]


def subst(t, mp, memo=None):
    """mp: dict T -> T"""
    ids = {k.id: v for k, v in mp.items()}
    return rebuild(t, lambda op, na, u: ids.get(u.id), memo)


def subterms(ts):
    """all subterms in topological order (children first)"""
    seen = set()
    out = []
    stack = [(t, 0) for t in ts]
    while stack:
        u, st = stack.pop()
        if st:
            out.append(u)
            continue
        if u.id in seen:
            continue
        seen.add(u.id)
        stack.append((u, 1))
        for x in u.a:
            if isinstance(x, T) and x.id not in seen:
                stack.append((x, 0))
        if u.op == "int":
            for x in u.a[3]:
                if isinstance(x, T) and x.id not in seen:
                    stack.append((x, 0))
    return out


def variables(ts):
    return sorted({u.a[0] for u in subterms(ts) if u.op == "var"})


_FT = {}


def free_tau(ts):
    """does the integration variable occur outside every integral?"""
    work, memo = list(ts), _FT
    while work:
        u = work[-1]
        if u.id in memo:
            work.pop()
            continue
        if u.op == "var":
            memo[u.id] = u.a[0] == "tau!"
            work.pop()
            continue
        ch = [x for x in (u.a[1:3] if u.op == "int" else u.a) if isinstance(x, T)]
        todo = [x for x in ch if x.id not in memo]
        if todo:
            work += todo
            continue
        memo[u.id] = any(memo[x.id] for x in ch)
        work.pop()
    return any(memo[u.id] for u in ts)


def show(t, depth=8):
    if depth == 0:
        return "..."
    s = lambda x: show(x, depth - 1) if isinstance(x, T) else str(x)
    op = t.op
    if op == "num":
        return str(t.a[0])
    if op == "var":
        return t.a[0]
    if op in ("pi", "I", "nan", "inf"):
        return op
    if op in ("add", "sub", "mul", "div"):
        return "(%s%s%s)" % (s(t.a[0]), {"add": "+", "sub": "-", "mul": "*", "div": "/"}[op], s(t.a[1]))
    if op == "neg":
        return "-" + s(t.a[0])
    return "%s(%s)" % (op, ",".join(s(x) for x in t.a))


# ---------------------------------------------------------------- constants

_PIS = {k: math.pi ** k for k in (-4, -3, -2, -1, 1, 2, 3, 4)}
_lift = {}


def lift(x):
    """f64 literal -> exact term.  The shortest decimal representation if it is
    short, else a small rational, else small rational times a power of pi, else
    the exact dyadic value.  Everything within 4 ulp of the literal."""
    t = _lift.get(x)
    if t is not None:
        return t
    if x != x:
        return NAN
    if x in (float("inf"), float("-inf")):
        return INF
    t = _lift_raw(x)
    _lift[x] = t
    return t


def _lift_raw(x):
    if x == 0:
        return ZERO
    if x == int(x) and abs(x) < 2**53:
        return num(int(x))
    r = repr(abs(x))
    mant = r.split("e")[0].replace(".", "").strip("0")
    if len(mant) <= 12:
        return num(Fraction(repr(x)))
    ulp = math.ulp(x)
    f = Fraction(x)
    for d in range(1, 2000):
        n = round(x * d)
        if n and abs(float(Fraction(n, d)) - x) <= ulp and abs(n) < 100000:
            return num(Fraction(n, d))
    for k, p in _PIS.items():
        y = x / p
        for d in range(1, 1000):
            n = round(y * d)
            if n and abs(n) < 10000 and abs(n / d * p - x) <= 4 * ulp:
                return mul(num(Fraction(n, d)), powi(PI, k))
    return num(f)


# ---------------------------------------------------------------- numerics


def evalmp(t, env, mp, memo=None):
    """numeric value with mpmath context; env: var name -> mpf; integrals are
    evaluated by a fixed linear functional (see quad)"""
    memo = {} if memo is None else memo
    for u in subterms_skip(t, memo):
        memo[u.id] = _ev(u, env, mp, memo)
    return memo[t.id]


def subterms_skip(t, memo):
    seen = set()
    out = []
    stack = [(t, 0)]
    while stack:
        u, st = stack.pop()
        if st:
            out.append(u)
            continue
        if u.id in seen or u.id in memo:
            continue
        seen.add(u.id)
        stack.append((u, 1))
        if u.op == "int":
            stack.append((u.a[1], 0))
            stack.append((u.a[2], 0))
            for x in u.a[3]:
                if isinstance(x, T):
                    stack.append((x, 0))
            continue
        for x in u.a:
            if isinstance(x, T):
                stack.append((x, 0))
    return out


class Undefined(Exception):
    pass


def _ev(u, env, mp, memo):
    op = u.op
    a = u.a
    if op == "num":
        return mp.mpf(a[0].numerator) / a[0].denominator
    if op == "var":
        return env[a[0]]
    if op == "pi":
        return +mp.pi
    if op == "I":
        return mp.mpc(0, 1)
    if op in ("nan", "inf"):
        raise Undefined(op)
    if op == "int":
        return quad(u, env, mp, memo)
    v = [memo[x.id] for x in a if isinstance(x, T)]
    if op == "add":
        return v[0] + v[1]
    if op == "sub":
        return v[0] - v[1]
    if op == "mul":
        return v[0] * v[1]
    if op == "neg":
        return -v[0]
    if op == "div":
        if v[1] == 0:
            raise Undefined("div by zero")
        return v[0] / v[1]
    if op == "ln":
        if v[0] == 0:
            raise Undefined("ln 0")
        return mp.log(v[0])
    if op == "exp":
        if abs(mp.re(v[0])) > 10**6:
            raise Undefined("exp overflow")
        return mp.exp(v[0])
    if op == "sqrt":
        return mp.sqrt(v[0])
    if op == "re":
        return mp.re(v[0])
    if op == "im":
        return mp.im(v[0])
    if op == "abs":
        return abs(v[0])
    if op == "uf":
        return ufval(u, v, mp)
    raise NotImplementedError(op)


def uf(name, *args):
    """uninterpreted real function of real arguments"""
    return mk("uf", name, *args)


def ufval(u, v, mp):
    # a smooth, generic stand-in used only to propose equalities
    import zlib

    h = zlib.crc32(u.a[0].encode()) % 9973
    s = mp.mpf(h) / 9973 + 1
    for i, x in enumerate(v):
        s = s * mp.mpf("1.37") + mp.sin(x * (i + mp.mpf("1.1")) + h) + x * x * mp.mpf("0.3")
    return s


QN = None
TAU = var("tau!")


def quad(u, env, mp, memo):
    """A fixed 3-node functional standing for the quadrature; the method enters
    as a generic multiplier, so equal values mean equal integrand, bounds and
    method (used only to propose equalities)."""
    f, a, b, m = u.a
    lo, hi = memo[a.id], memo[b.id]
    s = mp.mpf(0)
    for x, w in (("0.21379", "0.63"), ("0.53117", "0.39"), ("0.77713", "0.71")):
        e2 = dict(env)
        e2["tau!"] = lo + (hi - lo) * mp.mpf(x)
        s += mp.mpf(w) * evalmp(f, e2, mp, {})
    mm = mp.mpf(1)
    for i, x in enumerate(m):
        v = memo[x.id] if isinstance(x, T) else mp.mpf(hash_small(x))
        mm += (i + 1) * mp.mpf("0.0137") * mp.sin(mp.log(1 + abs(v)) * (i + 2) + i)
    return s * (hi - lo) * mm


def hash_small(x):
    import zlib

    return zlib.crc32(repr(x).encode()) % 1009


def diff(t, name, memo=None):
    """derivative with respect to the real variable `name`"""
    memo = {} if memo is None else memo
    for u in subterms([t]):
        if u.id in memo:
            continue
        op = u.op
        if op == "var":
            memo[u.id] = ONE if u.a[0] == name else ZERO
            continue
        d = [memo[x.id] for x in u.a if isinstance(x, T)] if op != "int" else None
        if op == "int":
            f, a, b, m = u.a
            if name in variables([f, a, b]):
                raise ValueError("derivative of an integral")
            r = ZERO
        elif not d or all(x is ZERO for x in d):
            r = ZERO
        elif op == "add":
            r = add(d[0], d[1])
        elif op == "sub":
            r = sub(d[0], d[1])
        elif op == "neg":
            r = neg(d[0])
        elif op == "mul":
            r = add(mul(d[0], u.a[1]), mul(u.a[0], d[1]))
        elif op == "div":
            r = div(sub(d[0], mul(u, d[1])), u.a[1])
        elif op == "sqrt":
            r = div(d[0], mul(TWO, u))
        elif op == "exp":
            r = mul(u, d[0])
        elif op == "ln":
            r = div(d[0], u.a[0])
        elif op in ("re", "im", "conj"):
            r = {"re": re, "im": im, "conj": conj}[op](d[0])
        else:
            raise ValueError("derivative of " + op)
        memo[u.id] = r
    return memo[t.id]
