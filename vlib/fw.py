"""Obligations: run the real code symbolically, compare, decide, replay."""
import json
import os
import random
import signal
import sys
import time
import traceback
from fractions import Fraction

import mpmath

import alg
import build
import llir
import native
import numq
import series
import symex
import term as t_
from alg import Domain, Inconclusive, Infeasible
from symex import Cond
from term import T

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Violation(Exception):
    def __init__(self, label, wit, lhs=None, rhs=None, kind="equal", conds=()):
        self.label, self.wit, self.lhs, self.rhs, self.kind, self.conds = label, wit, lhs, rhs, kind, list(conds)


class PanicPath(Exception):
    def __init__(self, msg):
        self.msg = msg


class Deadline(BaseException):
    pass


class Ob:
    """one proof obligation: fn(cx) builds both sides and asserts"""

    def __init__(self, oid, fn, dom, tier="quick", limit=120, note="", maxpaths=400, bounds=None, maxfree=None):
        self.id, self.fn, self.dom, self.tier, self.limit, self.note, self.maxpaths = oid, fn, dom, tier, limit, note, maxpaths
        self.bounds = bounds
        self.maxfree = maxfree  # free branch decisions per call explored
        self.pre = ()  # settings written before each call that names none


def parts(z):
    """(real part, imaginary part) of an argument"""
    if isinstance(z, tuple):
        return tuple(t_.tonum(x) for x in z)
    z = t_.tonum(z)
    if t_.isreal(z):
        return z, t_.ZERO
    if z.op == "neg":
        a, b = parts(z.a[0])
        return t_.neg(a), t_.neg(b)
    if z.op in ("add", "sub"):
        a, b = z.a
        for r, i, sr, si in ((a, b, 1, 1 if z.op == "add" else -1), (b, a, 1 if z.op == "add" else -1, 1)):
            if t_.isreal(r):
                im = _imag(i)
                if im is not None:
                    return (r if sr > 0 else t_.neg(r)), (im if si > 0 else t_.neg(im))
    im = _imag(z)
    if im is not None:
        return t_.ZERO, im
    return t_.re(z), t_.im(z)


def _imag(i):
    if i is t_.I:
        return t_.ONE
    if i.op == "mul":
        if i.a[0] is t_.I and t_.isreal(i.a[1]):
            return i.a[1]
        if i.a[1] is t_.I and t_.isreal(i.a[0]):
            return i.a[0]
    if i.op == "neg":
        x = _imag(i.a[0])
        return None if x is None else t_.neg(x)
    return None


class Env:
    """everything a worker needs; created once per process before forking"""

    def __init__(self, prog, lib, api):
        self.prog, self.lib, self.api = prog, lib, api


class Cx:
    def __init__(self, env, ob, dec, st):
        self.env, self.ob, self.dec, self.pos, self.alts = env, ob, dec, 0, []
        self.dom = ob.dom
        self.conds = []
        self.calls = []  # recorded native calls: (seq, out terms)
        self.st = st
        self._pr = None
        self.nassert = 0
        self.cparts = {}  # components of complex results

    # ---------------------------------------------------------------- choices
    def choose(self, n):
        if self.pos < len(self.dec):
            i = self.dec[self.pos]
        else:
            i = 0
            for k in range(1, n):
                self.alts.append(self.dec[: self.pos] + [k])
            self.dec = self.dec[: self.pos] + [0]
        self.pos += 1
        return i

    # ---------------------------------------------------------------- domain
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, tuple):
                self.conds.append(c)
            else:
                self.conds.append((c, True))
        self._pr = None

    def prune(self):
        """give up the path early when its assumptions contradict each other"""
        zt = alg.ZTrans()
        fs = [zt.cond(k, p) for k, p in list(self.dom.facts) + list(self.conds)]
        r, _ = alg.z3check(fs + self.dom.z3facts(zt) + zt.side, 2000)
        if r == "unsat":
            raise Infeasible()

    def prover(self):
        if self._pr is None:
            self._pr = alg.Prover(self.dom, self.conds, seed=SEED + 1, deadline=self.st["deadline"])
        return self._pr

    # ---------------------------------------------------------------- calls
    def encode(self, fid, args):
        e = self.env.api.get(fid)
        if e is None:
            raise Inconclusive("no harness wrapper " + fid)
        rin, nin = [], []
        if len(args) != len(e["args"]):
            raise Inconclusive("arity of " + fid)
        for (nm, ty), v in zip(e["args"], args):
            if ty == "R":
                rin.append(t_.tonum(v))
                if not t_.isreal(rin[-1]):
                    raise Inconclusive("complex value for a real argument of " + fid)
            elif ty == "C":
                rin += parts(v)
            elif ty == "U":
                nin.append(v)
            elif ty == "M":
                # (tolerance, iterations), another rule as third
                rin.append(t_.tonum(v[0]))
                nin += [v[1], v[2] if len(v) > 2 else 2]
            elif ty == "F":
                nc, mg, qs = v
                nin += [nc, len(qs)] + [q[0] for q in qs]
                rin += [t_.tonum(mg)] + [t_.tonum(q[1]) for q in qs]
            elif ty == "RL":  # list of doubles preceded by its length
                nin.append(len(v))
                rin += [t_.tonum(x) for x in v]
            elif ty == "RV":  # values without a length
                rin += [t_.tonum(x) for x in v]
            elif ty == "CV":
                for z in v:
                    rin += parts(z)
            else:
                raise Inconclusive("argument type " + ty)
        return e, rin, nin

    def decode(self, e, outs):
        r = e["ret"]
        if r is None or r == "()":
            return None
        if isinstance(r, str):
            r1 = self._dec(r, outs)
            return r1[0]
        res = []
        for x in r:
            if x == "*":
                res += outs
                break
            v, outs = self._dec(x, outs)
            res.append(v)
        return res

    def _dec(self, ty, outs):
        if not outs:
            raise Inconclusive("harness call wrote no output")
        if ty == "C":
            z = t_.mkc(outs[0], outs[1])
            # by identity: equal terms may come from different components
            self.cparts.setdefault(z.id, []).append((outs[0], outs[1]))
            return z, outs[2:]
        return outs[0], outs[1:]

    def undefined(self, z, env, memo):
        """a component that is not a real number at this point: real
        operations of the code (logarithm, root) left their range there and
        the compiled component is not a number"""
        tiny = alg.MP.mpf(10) ** -30
        for p in self.cparts.get(z.id, ()):
            for u in p:
                if u.op in ("nan", "inf"):
                    return True
                if not t_.isreal(u) or u.op not in ("num", "var"):
                    v = t_.evalmp(u, env, alg.MP, memo)
                    if abs(alg.MP.im(v)) > tiny * (1 + abs(v)):
                        return True
        return False

    def defined(self, x, y, label, pr=None):
        """complex results are numbers at the same points"""
        if x is y or not (x.id in self.cparts or y.id in self.cparts):
            return
        if pr is None:
            pr = self.prover()
            pr.setup([x, y])
        for (e, env), memo in zip(pr.pts, pr.vmemo):
            a, b = (self.undefined(u, env, memo) for u in (x, y))
            if a != b and pr.onpath(env, memo):
                raise Violation(label, {"point": e, "lhs": None, "rhs": None}, x, y, "undef", self.conds)

    def call(self, fid, *args, pre=(), panics=False):
        r = self.seq(list(pre or self.ob.pre) + [(fid,) + tuple(args)], panics=panics)
        return r[-1]

    def seq(self, calls, panics=False):
        """several calls in one process; returns all results (None for unit).
        With panics=True a panicking path yields the string 'panic' last."""
        enc = [self.encode(c[0], c[1:]) for c in calls]
        key = (tuple((e["id"], tuple(x.id for x in rin), tuple(x if isinstance(x, int) else ("t", x.id) for x in nin)) for e, rin, nin in enc), tuple((c.key(), p) for c, p in self.conds))
        cache = self.st["cache"]
        res = cache.get(key)
        if res is None:
            ex = self.st["ex"]
            ex.base = list(self.conds)
            ex.maxfree = self.ob.maxfree
            ex.oracle = self.st["oracle"]
            ex.used = self.st["used"]
            try:
                res = symex.seq_call(ex, [(e["id"] if e["id"].startswith("h_") else "h_" + e["id"], rin, nin) for e, rin, nin in enc], max_paths=self.ob.maxpaths)
            except (symex.Unsupported, symex.Budget) as x:
                raise Inconclusive("%s: %s" % (enc[-1][0]["id"], x))
            self.st["paths"] += len(res)
            if len(res) > 2:
                res = self.likely_first(res)
            cache[key] = res
        conds, outs = res[self.choose(len(res)) if len(res) > 1 else 0]
        if len(conds) != len(self.conds):
            self.conds = list(conds)
            self._pr = None
        self.calls.append(([(e["id"], rin, nin) for e, rin, nin in enc], outs))
        result = []
        for (e, rin, nin), (k, o) in zip(enc, outs):
            if k == "panic":
                if not panics:
                    raise PanicPath("%s panics: %s" % (e["id"], o))
                result.append("panic")
                break
            result.append(self.decode(e, o))
        return result

    def likely_first(self, res):
        """paths that sampled points take are explored before the others"""
        rng = random.Random(7)
        names = sorted(set(t_.variables([x for conds, _ in res for k, _ in conds for x in (k.a, k.b)])))
        hits = [0] * len(res)
        t0 = time.time()
        for j in range(120):
            if all(hits) or time.time() - t0 > 2:
                break
            e = (self.dom.rand if j % 2 else self.dom.rand_wide)(rng, names)
            env = {k: alg.MP.mpf(v.numerator) / v.denominator for k, v in e.items()}
            memo, val = {}, {}
            for i, (conds, _) in enumerate(res):
                try:
                    for k, p in conds:
                        kk = (k.key(), p)
                        if kk not in val:
                            val[kk] = alg.cond_holds(k, p, env, memo)
                        if not val[kk]:
                            break
                    else:
                        hits[i] += 1
                        break
                except (t_.Undefined, ZeroDivisionError, OverflowError):
                    continue
        order = sorted(range(len(res)), key=lambda i: hits[i] == 0)
        # the first one is taken at once, the others from the end
        order = order[:1] + order[:0:-1]
        return [res[i] for i in order]

    # ---------------------------------------------------------------- assertions
    def equal(self, x, y, label=""):
        self.nassert += 1
        x, y = t_.tonum(x), t_.tonum(y)
        if (x.op == "nan") != (y.op == "nan"):
            # an undefined value (a division by zero) against a defined one
            pr = self.prover()
            pr.setup([y if x.op == "nan" else x])
            for e, env in pr.pts:
                if pr.onpath(env, {}):
                    raise Violation(label, {"point": e, "lhs": None, "rhs": None}, x, y, "nan", self.conds)
            raise Inconclusive("undefined value at an unknown point")
        try:
            r = self.prover().equal(x, y)
        except Inconclusive:
            self.defined(x, y, label)
            self.wide(x, y, label)
            raise
        if r is not True:
            raise Violation(label, r, x, y, "equal", self.conds)
        self.defined(x, y, label)

    def wide(self, x, y, label):
        """look for a difference on the whole domain, not just at
        moderate values (where no proof was found)"""
        if self.st["deadline"].left() < 0:
            return
        pr = alg.Prover(self.dom, self.conds, seed=SEED + 7, npts=12)
        pr.names = set(t_.variables([x, y] + [u for k, _ in self.conds + self.dom.facts for u in (k.a, k.b)])) | set(self.dom.ranges)
        pr.pts, pr.vmemo = [], []
        pr._wide(sorted(pr.names), [x, y])
        if not pr.pts:
            # an equality on the path
            d = self.dom.extend()
            for n, r in d.ranges.items():
                d.ranges[n] = (max(r[2], -5 - abs(r[1])), min(r[3], 5 + abs(r[1])), r[2], r[3])
            pr.d = d
            pr._pinned(sorted(pr.names), [x, y])
        for (e, env), memo in zip(pr.pts, pr.vmemo):
            a, b = (t_.evalmp(u, env, alg.MP, memo) for u in (x, y))
            if not pr.close([a], [b]) and pr.onpath(env, memo):
                raise Violation(label, {"point": e, "lhs": a, "rhs": b}, x, y, "equal", self.conds)
        self.defined(x, y, label, pr)

    def limit(self, x, eps, y, label="", order=0):
        """x = y eps^order + o(eps^order) as eps -> 0+"""
        self.nassert += 1
        x, y = t_.tonum(x), t_.tonum(y)
        mk = lambda d: alg.Prover(d, self.conds, seed=SEED + 1, deadline=self.st["deadline"])
        r = series.limit_equal(x, eps, y, self.dom, self.conds, order, mk=mk)
        if r is not True:
            raise Violation(label, r, x, y, "limit:%s:%d" % (eps.a[0], order), self.conds)

    def holds(self, cond, label="", pol=True):
        """cond (over real terms) holds for every value on this path"""
        self.nassert += 1
        if cond.a is cond.b:
            ok = cond.rel != "lt"
            if ok == pol:
                return
        pr = self.prover()
        pr.setup([cond.a, cond.b])
        for (e, env), memo in zip(pr.pts, pr.vmemo):
            if not alg.cond_holds(cond, pol, env, memo) and pr.onpath(env, memo):
                raise Violation(label, {"point": e, "lhs": None, "rhs": None}, cond.a, cond.b, "cond:%s:%s" % (cond.rel, pol), self.conds)
        zt = alg.ZTrans()
        fs = [zt.cond(k, p) for k, p in self.dom.facts + self.conds]
        fs.append(zt.cond(cond, not pol))
        fs += self.dom.z3facts(zt) + zt.side
        r, m = alg.z3check(fs, 20000)
        if r == "unsat":
            return
        if r == "sat":
            # a concrete point is needed: search with the solver's help
            rr, pt = alg.solve_point(self.dom, self.conds + [(cond, not pol)], sorted(pr.names))
            if rr == "sat":
                env = {k: alg.MP.mpf(v.numerator) / v.denominator for k, v in pt.items()}
                if not alg.cond_holds(cond, pol, env, {}):
                    raise Violation(label, {"point": pt, "lhs": None, "rhs": None}, cond.a, cond.b, "cond:%s:%s" % (cond.rel, pol), self.conds)
        raise Inconclusive("condition not decided: " + label)

    def asserted(self, label):
        """an assertion that holds by having reached this path"""
        self.nassert += 1

    def never(self, label):
        """this path must not be reachable"""
        self.nassert += 1
        pr = self.prover()
        pr.setup([])
        raise Violation(label, {"point": pr.pts[0][0], "lhs": None, "rhs": None}, None, None, "path", self.conds)

    def same(self, x, y, label=""):
        if isinstance(x, (list, tuple)):
            for i, (a, b) in enumerate(zip(x, y)):
                self.same(a, b, "%s[%d]" % (label, i))
            if len(x) != len(y):
                self.never(label + ": different number of results")
        elif x is None and y is None:
            pass
        else:
            self.equal(x, y, label)


# ------------------------------------------------------------------ numeric replay

M15 = mpmath.MPContext()
M15.dps = 18


def realval(t, env, mp, memo=None):
    """numeric value with integrals computed by actual quadrature"""
    memo = {} if memo is None else memo
    for u in t_.subterms_skip(t, memo):
        if u.id in memo:
            continue
        if u.op == "int":
            f, a, b, m = u.a
            if m[0] != "tag2":
                raise OverflowError("quadrature rule without a numeric stand-in")
            lo, hi = float(mp.re(memo[a.id])), float(mp.re(memo[b.id]))
            it, tol = [float(alg.MP.re(memo[x.id])) if isinstance(x, T) else x for x in m][-2:]
            g = numq.compile_fn(f, env, {})
            memo[u.id] = mp.mpmathify(numq.integrate(g, lo, hi, float(tol), int(it)))
        else:
            memo[u.id] = t_._ev(u, env, mp, memo)
    return memo[t.id]


def hasint(t):
    return any(u.op == "int" for u in t_.subterms([t]))


def inttol(t, memo):
    r = 0.0
    for u in t_.subterms([t]):
        if u.op == "int":
            x = u.a[3][-1]
            if isinstance(x, T) and x.id in memo:
                r = max(r, float(alg.MP.re(memo[x.id])))
    return r


def np_finite(x):
    return x == x and abs(x) != float("inf")


def native_args(calls, env):
    out = []
    for fid, rin, nin in calls:
        a = [float(alg.MP.re(t_.evalmp(x, env, alg.MP, {}))) for x in rin]
        n = [x if isinstance(x, int) else int(alg.MP.nint(t_.evalmp(x, env, alg.MP, {}))) for x in nin]
        out.append([fid if fid.startswith("h_") else "h_" + fid, a, n])
    return out


def _float_env(point):
    return {k: alg.MP.mpf(float(v)) for k, v in point.items()}


def compare_native(cx, env, outs_native, seq, outs):
    """-> list of (fid, idx, predicted, native, ok, tolerance)"""
    rows = []
    for (fid, rin, nin), (k, terms), nat in zip(seq, outs, outs_native):
        if k == "panic":
            continue
        for i, tm in enumerate(terms):
            memo = {}
            if tm.op == "nan":
                x = nat[i] if i < len(nat) else float("nan")
                rows.append((fid, i, float("nan"), x, not np_finite(x), 0.0))
                continue
            v = realval(tm, env, alg.MP, memo)
            mx = max([abs(x) for x in memo.values()] + [abs(v)])
            sc = max(abs(realval(x, env, alg.MP, memo)) for x in terms if x.op != "nan")
            # a borderline subdivision decision of the quadrature shifts the
            # result by as much as its tolerance allows
            tol = (max(1e-4, 0.1 * inttol(tm, memo)) if hasint(tm) else 1e-7) * float(sc) + 1e-12 * float(min(mx, 10**12 * (1 + sc)))
            x = nat[i] if i < len(nat) else float("nan")
            rows.append((fid, i, float(alg.MP.re(v)), x, bool(abs(x - float(alg.MP.re(v))) <= tol), tol))
    return rows


def hasint_conds(conds):
    return any(hasint(c.a) or hasint(c.b) for c, _ in conds)


def real_point(cx, v, tries=400):
    """a point at which the path conditions hold with actual quadratures and
    the asserted relation fails; None if none was found"""
    rng = random.Random(SEED + 5)
    names = sorted(n for n in set(cx.dom.ranges) | set(t_.variables([x for c, _ in v.conds for x in (c.a, c.b)])) if n != "tau!")
    conds = [(c, p) for c, p in v.conds if not t_.free_tau([c.a, c.b])]
    for k in range(tries):
        e = cx.dom.rand(rng, names) if k % 4 else cx.dom.rand_wide(rng, names)
        env = _float_env(e)
        memo = {}
        try:
            ok = True
            for c, p in conds:
                a, b = (M15.re(realval(x, env, alg.MP, memo)) for x in (c.a, c.b))
                if {"lt": a < b, "le": a <= b, "eq": a == b}[c.rel] != p:
                    ok = False
                    break
            if ok and v.kind.startswith("cond"):
                _, rel, pol = v.kind.split(":")
                a, b = (M15.re(realval(x, env, alg.MP, memo)) for x in (v.lhs, v.rhs))
                ok = {"lt": a < b, "le": a <= b, "eq": a == b}[rel] != (pol == "True")
            if ok:
                return e
        except (ArithmeticError, t_.Undefined, ValueError):
            continue
    return None


def confirm(cx, v):
    """replay a counterexample against the compiled library.
    -> (confirmed?, record)"""
    pt = v.wit["point"]
    if hasint_conds(v.conds):
        p2 = real_point(cx, v)
        if p2 is None:
            return False, {"label": v.label, "why": "no point found at which the path is taken with the actual quadrature", "path": ["%r %s" % (c, p) for c, p in v.conds][:6]}
        pt = p2
    env = _float_env(pt)
    rec = {"label": v.label, "kind": v.kind, "point": {k: float(x) for k, x in pt.items()}, "calls": [], "path": [("%r" % (c,)) + (" holds" if p else " fails") for c, p in v.conds if not any(c is f for f, _ in cx.dom.facts)][:20]}
    seed = {}
    fin = set()
    for seq, outs in cx.calls:
        na = native_args(seq, env)
        r = native.run(cx.env.lib, na, 20)
        panicked = any(k == "panic" for k, _ in outs)
        if isinstance(r, tuple) and r[2] == "timeout" and any(hasint(x) for _, o in outs if isinstance(o, list) for x in o):
            # the adaptive quadrature itself does not terminate in time at the
            # default tolerance; the difference is in what it is given
            rec["calls"].append({"calls": na, "native": "quadrature did not finish within 20 s"})
            continue
        if isinstance(r, tuple) and r[2] == "timeout" and v.kind == "nan":
            # a quadrature over an undefined interval need not terminate
            rec["calls"].append({"calls": na, "native": "no result within 20 s"})
            rec["undefined"] = True
            continue
        if isinstance(r, tuple):
            rec["calls"].append({"calls": na, "native": "process aborted: %s" % (r[2][-300:],)})
            if not panicked:
                rec["why"] = "native call aborted although the encoding returns"
                return False, rec
            continue
        if panicked:
            rec["why"] = "encoding panics, native call returned"
            return False, rec
        if v.kind == "undef":
            rec["calls"].append({"calls": na, "native": r})
            fin.update(np_finite(v_) for nat in r for v_ in nat)
            continue
        if v.kind == "nan":
            rec["calls"].append({"calls": na, "native": r})
            for (fid, rin, nin), (k, terms), nat in zip(seq, outs, r):
                for i, tm in enumerate(terms):
                    if tm.op == "nan" and not np_finite(nat[i]):
                        rec["undefined"] = True
            continue
        try:
            rows = compare_native(cx, env, r, seq, outs)
        except (OverflowError, ZeroDivisionError):
            rows = []
        rec["calls"].append({"calls": na, "native": r, "predicted": [x[2] for x in rows]})
        if not all(x[4] for x in rows):
            rec["why"] = "native value differs from the encoding: %r" % ([x for x in rows if not x[4]][:2],)
            return False, rec
        for (fid, rin, nin), (k, terms), nat in zip(seq, outs, r):
            for i, tm in enumerate(terms):
                if tm.op not in ("num", "var"):
                    seed[tm.id] = alg.MP.mpf(nat[i])
            if len(terms) == 2:
                z = t_.mkc(terms[0], terms[1])
                if z.op not in ("num", "var"):
                    seed[z.id] = alg.MP.mpc(nat[0], nat[1])
    if v.kind == "equal":
        m1 = {}
        try:
            l, r = realval(v.lhs, env, alg.MP, m1), realval(v.rhs, env, alg.MP, m1)
        except (OverflowError, ZeroDivisionError):
            m1 = {}
            l, r = t_.evalmp(v.lhs, env, alg.MP, m1), t_.evalmp(v.rhs, env, alg.MP, m1)
        mx = max([abs(x) for x in m1.values()])
        try:
            memo = dict(seed)
            ln, rn = realval(v.lhs, env, alg.MP, memo), realval(v.rhs, env, alg.MP, memo)
        except Exception:
            ln, rn = l, r
        sc = max(abs(l), abs(r))
        rec.update(lhs=str(alg.MP.nstr(l, 17)), rhs=str(alg.MP.nstr(r, 17)), lhs_native=str(alg.MP.nstr(ln, 17)), rhs_native=str(alg.MP.nstr(rn, 17)))
        d, dn = abs(l - r), abs(ln - rn)
        if hasint(v.lhs) or hasint(v.rhs):
            # the functional stands for any quadrature: a different integrand,
            # bound or method is a difference even if the two integrals agree
            lf, rf = t_.evalmp(v.lhs, env, alg.MP, {}), t_.evalmp(v.rhs, env, alg.MP, {})
            rec.update(lhs_functional=str(alg.MP.nstr(lf, 17)), rhs_functional=str(alg.MP.nstr(rf, 17)))
            ok = abs(lf - rf) > 1e-18 * max(abs(lf), abs(rf))
        else:
            ok = d > 1e-9 * sc and dn > max(0.05 * d, 1e-14 * min(mx, sc * 10**4))
        if not ok:
            rec["why"] = "difference below rounding"
        return bool(ok), rec
    if v.kind == "undef":
        ok = len(fin) == 2
        if not ok:
            rec["why"] = "all results defined or none"
        return ok, rec
    if v.kind == "nan":
        ok = bool(rec.get("undefined"))
        if not ok:
            rec["why"] = "undefined in real arithmetic, a number in double precision"
        return ok, rec
    if v.kind.startswith("limit"):
        l, r = v.wit.get("lhs"), v.wit.get("rhs")
        rec.update(lhs=str(l), rhs=str(r))
        return True, rec
    return True, rec


# ------------------------------------------------------------------ running


def _alarm(sig, frm):
    raise Deadline()


def run_ob(env, ob, want_validation=True):
    if hasattr(ob, "run"):
        return ob.run(env)
    t0 = time.time()
    alg.STATS = alg.Stats()
    deadline = alg.Deadline(ob.limit)
    st = {"cache": {}, "ex": symex.Exec(env.prog), "oracle": alg.Oracle(ob.dom), "used": set(), "paths": 0, "deadline": deadline}
    res = {"id": ob.id, "status": "ok", "asserts": 0, "leaves": 0, "infeasible": 0, "validated": 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(ob.limit) + 5)
    work = [[]]
    val = pend = None

    def refute(v):
        """replay; -> (status, record)"""
        try:
            signal.alarm(100)
            ok, rec = confirm(cx, v)
        except Deadline:
            ok, rec = False, {"label": v.label, "why": "replay timed out"}
        except Exception as x:
            ok, rec = False, {"label": v.label, "why": "replay failed: %r" % (x,), "trace": traceback.format_exc()[-1500:]}
        finally:
            signal.alarm(max(1, int(ob.limit + 5 - (time.time() - t0))))
        return "violation" if ok else "unconfirmed", rec

    try:
        while work:
            cx = Cx(env, ob, work.pop(), st)
            try:
                try:
                    ob.fn(cx)
                    if cx.nassert == 0:
                        raise Infeasible()
                    # the path must be inhabited
                    pr = cx.prover()
                    pr.setup([])
                except PanicPath as p:
                    pr = cx.prover()
                    pr.setup([])
                    raise Violation(p.msg, {"point": pr.pts[0][0], "lhs": None, "rhs": None}, None, None, "panic", cx.conds)
                res["leaves"] += 1
                res["asserts"] += cx.nassert
                if val is None and want_validation and cx.calls:
                    val = (cx, pr.pts[0][0])
            except Infeasible:
                res["infeasible"] += 1
            except Violation as v:
                r = refute(v)
                if r[0] == "violation":
                    pend = r
                    break
                pend = pend or r
            except Inconclusive as x:
                # another path may still refute the obligation
                if deadline.left() < 0:
                    raise
                pend = pend or ("inconclusive", {"why": str(x)})
            work += cx.alts
            if res["leaves"] + res["infeasible"] > 3000:
                raise Inconclusive("too many paths")
        if pend is not None:
            val = None
        elif res["leaves"] == 0:
            raise Inconclusive("vacuous: no feasible path")
        if val is not None:
            signal.alarm(15)
            cx, pt = val
            e = _float_env(pt)
            r = random.Random(hash(ob.id) & 0xFFFF)
            seq, outs = cx.calls[r.randrange(len(cx.calls))]
            # a path chosen by the value of an integral is a path of the
            # abstract quadrature, not necessarily of the concrete one
            if not hasint_conds(cx.conds) and not any(k == "panic" for k, _ in outs):
                try:
                    nv = native.run(env.lib, native_args(seq, e))
                except Deadline:
                    nv = None  # the adaptive rule does not converge there
                if isinstance(nv, tuple):
                    raise Inconclusive("encoding validation: native call aborted: %s" % nv[2][-200:])
                try:
                    rows = compare_native(cx, e, nv, seq, outs) if nv is not None else []
                except (OverflowError, ZeroDivisionError, Deadline):
                    rows = []  # quadrature does not converge numerically there
                bad = [x for x in rows if not x[4]]
                if bad:
                    raise Inconclusive("encoding validation failed: %r at %r" % (bad[0], {k: float(x) for k, x in pt.items()}))
                res["validated"] = len(rows)
        if pend is not None:
            res["status"], res["detail"] = pend
    except Inconclusive as x:
        res["status"] = "inconclusive"
        res["detail"] = {"why": str(x)}
    except Deadline:
        res["status"] = "inconclusive"
        res["detail"] = {"why": "deadline of %d s" % ob.limit}
    except symex.Unsupported as x:
        res["status"] = "inconclusive"
        res["detail"] = {"why": "unsupported: %s" % x}
    except Exception as x:
        res["status"] = "error"
        res["detail"] = {"why": repr(x), "trace": traceback.format_exc()[-2500:]}
    finally:
        signal.alarm(0)
    res["paths"] = st["paths"]
    res["used"] = sorted(st["used"])
    s = alg.STATS
    res["solver"] = {"queries": s.queries, "unsat": s.unsat, "sat": s.sat, "unknown": s.unknown, "time": s.time, "lemmas": s.lemmas}
    res["time"] = time.time() - t0
    return res


def _worker(args):
    i, limit = args
    ob = _OBS[i]
    full = ob.limit
    if limit < full:
        ob.limit = limit
    try:
        r = run_ob(_ENV, ob)
        r["short"] = r["status"] != "ok" and r["status"] != "violation" and limit < full and r["time"] >= limit * 0.9
    finally:
        ob.limit = full
    return i, r


_ENV = None
_OBS = None
FIRST = 25  # seconds an obligation gets in the first round
AFTER = 100  # seconds spent looking for more once a counterexample is there


def skipped(ob, why):
    return {"id": ob.id, "status": "inconclusive", "detail": {"why": why}, "asserts": 0, "leaves": 0, "infeasible": 0, "validated": 0, "paths": 0, "used": [], "time": 0.0,
            "solver": {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "lemmas": {}}}


def run_all(env, obs, nproc=8, verbose=False, budget=None):
    """Decides the obligations.  With a budget (seconds) a first round gives
    each a short time, a second one the full time to those that need it, and
    what is still open when the budget is spent stays undecided."""
    global _ENV, _OBS
    import multiprocessing as mp

    _ENV, _OBS = env, obs
    out = [None] * len(obs)
    ctx = mp.get_context("fork")
    if nproc == 1:
        for i in range(len(obs)):
            out[i] = run_ob(env, obs[i])
            if verbose:
                print_row(out[i])
        return out
    end = time.time() + budget if budget else None
    first = None
    todo = list(range(len(obs)))
    for limit in [FIRST, 10**6] if budget else [10**6]:
        if not todo:
            break
        pool = ctx.Pool(nproc, maxtasksperchild=12)
        it = pool.imap_unordered(_worker, [(i, limit) for i in todo])
        again = []
        try:
            for _ in todo:
                stop = min([x for x in (end, first + AFTER if first else None) if x], default=None)
                i, r = it.next(max(0.0, stop - time.time())) if stop else it.next()
                if r.pop("short", False):
                    again.append(i)
                out[i] = r
                if r["status"] == "violation" and first is None:
                    first = time.time()
                if verbose:
                    print_row(r)
            pool.close()
        except mp.TimeoutError:
            again = []
        finally:
            pool.terminate()
            pool.join()
        todo = again
    for i, o in enumerate(obs):
        if out[i] is None:
            out[i] = skipped(o, "not reached within the time of this run")
    return out


def print_row(r):
    print("%-12s %-60s %6.2fs q=%d paths=%d leaves=%d %s" % (r["status"], r["id"], r["time"], r["solver"]["queries"], r["paths"], r["leaves"], (r.get("detail") or {}).get("why", (r.get("detail") or {}).get("label", ""))), flush=True)
