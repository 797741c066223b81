"""Symbolic execution with IEEE double semantics: every f64 operation of the IR
becomes the z3 floating-point operation with round-to-nearest-even; library
functions (exp, ln, pow, ...) are uninterpreted with the facts below."""
import math
import random
import struct
import time

import z3

import alg
import native
import symex
import term as t_
from symex import Bits, Ptr, Unsupported
from term import T

F64 = z3.Float64()
RM = z3.RNE()


def cst(x):
    return t_.mk("f:c", struct.unpack("<Q", struct.pack("<d", float(x)))[0])


def fval(u):
    return struct.unpack("<d", struct.pack("<Q", u.a[0]))[0]


class FCond:
    __slots__ = ("pred", "a", "b")

    def __init__(self, pred, a, b):
        self.pred, self.a, self.b = pred, a, b

    def key(self):
        return ("f", self.pred, self.a.id, self.b.id)

    def __repr__(self):
        return "%s %s %s" % (self.a, self.pred, self.b)


LIB1 = ("exp", "log", "log10", "log2", "exp2", "expm1", "log1p", "sin", "cos", "tan", "sinh", "cosh", "tanh", "cbrt", "atan")
LIB2 = ("pow", "atan2", "hypot")


class FpExec(symex.Exec):
    OPS = {"fadd": "f:add", "fsub": "f:sub", "fmul": "f:mul", "fdiv": "f:div"}

    def conv(self, v, ty):
        if ty.k == "f64" and isinstance(v, int):
            return t_.mk("f:c", v)
        return symex.Exec.conv(self, v, ty)

    def val(self, o, env, ty=None):
        if o[0] == "c" and isinstance(o[1], float):
            return cst(o[1])
        return symex.Exec.val(self, o, env, ty)

    def fop(self, op, *a):
        if all(x.op == "f:c" for x in a):
            z = z3.simplify(self.z3op(op, [z3.fpToFP(z3.BitVecVal(x.a[0], 64), F64) for x in a]))
            b = z3.simplify(z3.fpToIEEEBV(z))
            if z3.is_bv_value(b):
                return t_.mk("f:c", b.as_long())
        return t_.mk(op, *a)

    @staticmethod
    def z3op(op, a):
        if op == "f:add":
            return z3.fpAdd(RM, *a)
        if op == "f:sub":
            return z3.fpSub(RM, *a)
        if op == "f:mul":
            return z3.fpMul(RM, *a)
        if op == "f:div":
            return z3.fpDiv(RM, *a)
        if op == "f:fma":
            return z3.fpFMA(RM, *a)
        if op == "f:sqrt":
            return z3.fpSqrt(RM, *a)
        if op == "f:neg":
            return z3.fpNeg(*a)
        if op == "f:abs":
            return z3.fpAbs(*a)
        if op == "f:min":
            return z3.fpMin(*a)
        if op == "f:max":
            return z3.fpMax(*a)
        if op == "f:copysign":
            x, y = a
            return z3.If(z3.fpIsNegative(x) == z3.fpIsNegative(y), x, z3.fpNeg(x))
        raise Unsupported(op)

    def scalar(self, ins, env):
        op, ty = ins[0], ins[2]
        if op in self.OPS:
            a, b = self.val(ins[3], env), self.val(ins[4], env)
            if not isinstance(a, T) or not isinstance(b, T):
                raise Unsupported("arithmetic on undef")
            return self.fop(self.OPS[op], a, b)
        if op == "fneg":
            return self.fop("f:neg", self.val(ins[3], env))
        if op in ("uitofp", "sitofp"):
            v = self.val(ins[3], env)
            if not isinstance(v, int):
                raise Unsupported("uitofp of symbolic")
            if op == "sitofp" and v >> (ty.n - 1):
                v -= 1 << ty.n
            return cst(float(v))
        if op in ("fptoui", "fptosi"):
            raise Unsupported(op)
        return symex.Exec.scalar(self, ins, env)

    def fcmp(self, pred, a, b):
        if pred in ("true", "false"):
            return pred == "true"
        return self.decide(FCond(pred, a, b))

    def _cmp(self, rel, a, b):
        raise Unsupported("real comparison in floating-point mode")

    def intrinsic(self, name, a):
        b = name[5:].split(".")[0]
        if name.endswith("f64"):
            m = {"sqrt": "f:sqrt", "fabs": "f:abs", "fma": "f:fma", "minnum": "f:min", "maxnum": "f:max", "copysign": "f:copysign", "minimumnum": "f:min", "maximumnum": "f:max"}.get(b)
            if m:
                return self.fop(m, *a)
            if b in LIB1 or b in LIB2:
                return t_.mk("f:" + b, *a)
        if b == "powi" and isinstance(a[1], int):
            # repeated squaring, as in compiler-rt
            n = a[1] - (1 << 32) if a[1] >> 31 else a[1]
            r, x, k = None, a[0], abs(n)
            while k:
                if k & 1:
                    r = x if r is None else self.fop("f:mul", r, x)
                k >>= 1
                if k:
                    x = self.fop("f:mul", x, x)
            r = cst(1.0) if r is None else r
            return self.fop("f:div", cst(1.0), r) if n < 0 else r
        if b == "powi":
            return t_.mk("f:powi", a[0], a[1])
        if b == "is":  # is.fpclass
            raise Unsupported(name)
        return symex.Exec.intrinsic(self, name, a)

    def intercept(self, name, h, a):
        if name in LIB1 or name in LIB2:
            return t_.mk("f:" + name, *a)
        if "num_complex" in h:
            return NotImplemented
        return symex.Exec.intercept(self, name, h, a)

    def integrate(self, fn, args):
        raise Unsupported("quadrature in floating-point mode")


MARKS = (1e-200, 1e-100, 0.5, 1.0, 2.0, 3.0, 1000.0, 2000.0, 1e50, 1e100, 1e150, 1e200, 1e250, 1e300)


class FTrans:
    """abstract=True: arithmetic results are unknowns constrained by sign,
    not-a-number and monotonicity facts of correctly rounded operations (an
    over-approximation that needs no bit-blasted multiplier)"""

    def __init__(self, abstract=False, marks=MARKS):
        self.memo, self.side, self.apps = {}, [], {}
        self.abstract, self.marks = abstract, marks

    def arith(self, op, m, u):
        r = z3.FP("r!%s" % u.id, F64)
        S, V = self.side, lambda c: z3.FPVal(float(c), F64)
        zero, one = V(0), V(1)
        nan, inf = z3.fpIsNaN, z3.fpIsInf
        num = lambda *x: z3.Not(z3.Or(*[nan(y) for y in x]))
        Imp, And, Or, Not = z3.Implies, z3.And, z3.Or, z3.Not
        ge, le, gt, lt, ab, eq = z3.fpGEQ, z3.fpLEQ, z3.fpGT, z3.fpLT, z3.fpAbs, z3.fpEQ
        neg = z3.fpIsNegative
        if op in ("f:add", "f:sub"):
            x, y = m[0], m[1] if op == "f:add" else z3.fpNeg(m[1])
            S.append(nan(r) == Or(nan(x), nan(y), And(inf(x), inf(y), neg(x) != neg(y))))
            for a, b in ((x, y), (y, x)):
                S += [Imp(And(num(r), ge(a, zero)), ge(r, b)), Imp(And(num(r), le(a, zero)), le(r, b)), Imp(And(num(r), inf(a)), eq(r, a))]
            S.append(Imp(num(r, x, y), And(ge(x, z3.fpNeg(y)) == ge(r, zero), le(x, z3.fpNeg(y)) == le(r, zero))))
            # cancellation gives positive zero
            S.append(Imp(And(num(r), z3.fpIsZero(r), Not(z3.fpIsZero(x))), Not(neg(r))))
            S.append(Imp(inf(r), Or(inf(x), inf(y), gt(ab(x), V(1e300)), gt(ab(y), V(1e300)))))
            for i, c in enumerate(self.marks):
                for d in self.marks[: i + 1]:
                    S.append(Imp(And(le(ab(x), V(c)), le(ab(y), V(d))), le(ab(r), V(c + d))))
                    S.append(Imp(And(le(ab(x), V(d)), le(ab(y), V(c))), le(ab(r), V(c + d))))
                    S.append(Imp(And(ge(x, V(c)), ge(y, V(d)), num(r)), ge(r, V(c + d))))
                    S.append(Imp(And(ge(x, V(d)), ge(y, V(c)), num(r)), ge(r, V(c + d))))
                    for a, b in ((x, y), (y, x)):
                        # a >= c and b >= -d give a + b >= c - d
                        S.append(Imp(And(ge(a, V(c)), ge(b, V(-d)), num(r)), ge(r, V(c - d))))
                        S.append(Imp(And(le(a, V(-c)), le(b, V(d)), num(r)), le(r, V(d - c))))
        elif op == "f:mul":
            x, y = m
            S.append(nan(r) == Or(nan(x), nan(y), And(z3.fpIsZero(x), inf(y)), And(inf(x), z3.fpIsZero(y))))
            S.append(Imp(num(r), neg(r) == (neg(x) != neg(y))))
            for a, b in ((x, y), (y, x)):
                S += [Imp(And(num(r), ge(ab(a), one)), ge(ab(r), ab(b))), Imp(And(num(r), le(ab(a), one)), le(ab(r), ab(b))), Imp(And(num(r), z3.fpIsZero(a)), z3.fpIsZero(r)), Imp(And(num(r), inf(a)), inf(r))]
            self.products(S, m, r, V)
        elif op == "f:div":
            x, y = m
            S.append(nan(r) == Or(nan(x), nan(y), And(z3.fpIsZero(x), z3.fpIsZero(y)), And(inf(x), inf(y))))
            S.append(Imp(num(r), neg(r) == (neg(x) != neg(y))))
            S += [Imp(And(num(r), ge(ab(y), one)), le(ab(r), ab(x))), Imp(And(num(r), le(ab(y), one)), ge(ab(r), ab(x))), Imp(And(num(r), z3.fpIsZero(x)), z3.fpIsZero(r)), Imp(And(num(r), inf(y)), z3.fpIsZero(r)), Imp(And(num(r), inf(x)), inf(r)), Imp(And(num(r), z3.fpIsZero(y)), inf(r))]
            S += [Imp(And(num(r), ge(ab(x), ab(y))), ge(ab(r), one)), Imp(And(num(r), le(ab(x), ab(y))), le(ab(r), one))]
            for c in self.marks:
                for d in self.marks:
                    q = c / d
                    if q < 1e305:
                        S.append(Imp(And(le(ab(x), V(c)), ge(ab(y), V(d)), num(r)), le(ab(r), V(q))))
                    S.append(Imp(And(ge(ab(x), V(c)), le(ab(y), V(d)), num(r)), ge(ab(r), V(q))))
        elif op == "f:sqrt":
            (x,) = m
            S.append(nan(r) == Or(nan(x), lt(x, zero)))
            S += [Imp(num(r), ge(r, zero)), Imp(And(num(r), z3.fpIsZero(x)), z3.fpIsZero(r)), Imp(And(num(r), gt(x, zero)), gt(r, zero)), Imp(ge(x, one), And(ge(r, one), le(r, x))), Imp(And(ge(x, zero), le(x, one)), And(le(r, one), ge(r, x))), Imp(inf(r), inf(x)), Imp(And(inf(x), num(r)), inf(r))]
            for c in self.marks:
                if c * c < 1e305 and c * c > 0:
                    f = math.sqrt(c * c)
                    S += [Imp(And(num(r), le(x, V(c * c))), le(r, V(f))), Imp(And(num(r), ge(x, V(c * c))), ge(r, V(f)))]
        elif op == "f:fma":
            x, y, z = m
            # as a product followed by a sum, with the product's sign exact
            S.append(Imp(nan(r), Or(nan(x), nan(y), nan(z), inf(x), inf(y), inf(z))))
            S.append(Imp(Or(nan(x), nan(y), nan(z)), nan(r)))
            pp = Or(neg(x) == neg(y), z3.fpIsZero(x), z3.fpIsZero(y))
            pn = Or(neg(x) != neg(y), z3.fpIsZero(x), z3.fpIsZero(y))
            S += [Imp(And(num(r), pp), ge(r, z)), Imp(And(num(r), pn), le(r, z))]
            # r is the rounded sum of the exact product and z: dominated by the
            # rounded product when z has the same sign
            q = z3.FP("p!%d" % u.id, F64)
            self.arith_as("f:mul", [x, y], q)
            S += [Imp(And(num(r, q), ge(z, zero)), ge(r, q)), Imp(And(num(r, q), le(z, zero)), le(r, q))]
            for c in self.marks:
                for d in self.marks:
                    if c + d < 1e305:
                        S.append(Imp(And(le(ab(q), V(c)), le(ab(z), V(d)), num(r)), le(ab(r), V((c + d) * (1 + 1e-15)))))
        else:
            return FpExec.z3op(op, m)
        return r

    def arith_as(self, op, m, r):
        class U:
            pass

        u = U()
        u.id = str(r)
        q = self.arith(op, m, u)
        self.side.append(z3.Or(z3.And(z3.fpIsNaN(q), z3.fpIsNaN(r)), q == r))

    def products(self, S, m, r, V):
        x, y = m
        ab, ge, le = z3.fpAbs, z3.fpGEQ, z3.fpLEQ
        num = z3.Not(z3.fpIsNaN(r))
        for c in self.marks:
            for d in self.marks:
                q = c * d
                if 0 < q < 1e305:
                    S.append(z3.Implies(z3.And(le(ab(x), V(c)), le(ab(y), V(d)), num), le(ab(r), V(q))))
                if q < 1e305:
                    S.append(z3.Implies(z3.And(ge(ab(x), V(c)), ge(ab(y), V(d)), num), ge(ab(r), V(q))))

    def tr(self, t):
        for u in t_.subterms([t]):
            if u.id not in self.memo:
                self.memo[u.id] = self._tr(u)
        return self.memo[t.id]

    def _tr(self, u):
        op = u.op
        if op == "f:c":
            return z3.fpToFP(z3.BitVecVal(u.a[0], 64), F64)
        if op == "var":
            return z3.FP(u.a[0], F64)
        m = [self.memo[x.id] for x in u.a if isinstance(x, T)]
        n = op[2:]
        if n in LIB1 or n in LIB2 or n == "powi":
            r = z3.FP("%s!%d" % (n, u.id), F64)
            self.facts(n, m, r, u)
            return r
        if self.abstract:
            return self.arith(op, m, u)
        return FpExec.z3op(op, m)

    def facts(self, n, m, r, u):
        S = self.side
        x = m[0]
        zero, one = z3.FPVal(0.0, F64), z3.FPVal(1.0, F64)
        if n == "exp":
            S.append(z3.fpIsNaN(r) == z3.fpIsNaN(x))
            S.append(z3.Implies(z3.Not(z3.fpIsNaN(x)), z3.And(z3.fpGEQ(r, zero), z3.Not(z3.fpIsNegative(r)))))
            S.append(z3.Implies(z3.fpIsZero(x), z3.fpEQ(r, one)))
            S.append(z3.Implies(z3.fpGT(x, zero), z3.fpGEQ(r, one)))
            S.append(z3.Implies(z3.fpLT(x, zero), z3.fpLEQ(r, one)))
            S.append(z3.Implies(z3.fpGT(x, z3.FPVal(710.0, F64)), z3.fpIsInf(r)))
            S.append(z3.Implies(z3.fpLT(x, z3.FPVal(709.0, F64)), z3.Not(z3.fpIsInf(r))))
            S.append(z3.Implies(z3.fpLT(x, z3.FPVal(-746.0, F64)), z3.fpIsZero(r)))
            # exp(x) > 1 as soon as x exceeds half an ulp of one
            S.append(z3.Implies(z3.fpGT(x, z3.FPVal(3e-16, F64)), z3.fpGT(r, one)))
        elif n == "expm1":
            S.append(z3.fpIsNaN(r) == z3.fpIsNaN(x))
            S.append(z3.Implies(z3.fpGEQ(x, zero), z3.fpGEQ(r, x)))
            S.append(z3.Implies(z3.fpLEQ(x, zero), z3.And(z3.fpLEQ(r, zero), z3.fpGEQ(r, z3.FPVal(-1.0, F64)))))
            S.append(z3.Implies(z3.fpGT(x, z3.FPVal(710.0, F64)), z3.fpIsInf(r)))
            S.append(z3.Implies(z3.fpLT(x, zero), z3.fpLT(r, zero)))
        elif n == "log":
            S.append(z3.fpIsNaN(r) == z3.Or(z3.fpIsNaN(x), z3.fpLT(x, zero)))
            S.append(z3.Implies(z3.fpGT(x, one), z3.fpGT(r, zero)))
            S.append(z3.Implies(z3.And(z3.fpGT(x, zero), z3.fpLT(x, one)), z3.And(z3.fpLT(r, zero), z3.Not(z3.fpIsInf(r)))))
            S.append(z3.Implies(z3.fpEQ(x, one), z3.fpIsZero(r)))
            S.append(z3.Implies(z3.Not(z3.fpIsInf(x)), z3.fpLT(r, z3.FPVal(710.0, F64))) if True else None)
        elif n == "pow":
            y = m[1]
            S.append(z3.Implies(z3.And(z3.fpGEQ(x, zero), z3.Not(z3.fpIsNaN(y))), z3.fpGEQ(r, zero)))
            S.append(z3.Implies(z3.And(z3.fpGEQ(x, zero), z3.fpLEQ(x, one), z3.fpGEQ(y, zero)), z3.fpLEQ(r, one)))
            # for exponents between zero and one the power lies between 1 and x
            S.append(z3.Implies(z3.And(z3.fpGEQ(x, one), z3.fpGEQ(y, zero), z3.fpLEQ(y, one)), z3.fpLEQ(r, x)))
        elif n == "hypot":
            S.append(z3.Implies(z3.And(z3.Not(z3.fpIsNaN(x)), z3.Not(z3.fpIsNaN(m[1]))), z3.fpGEQ(r, zero)))
        elif n == "cbrt":
            S.append(z3.fpIsNaN(r) == z3.fpIsNaN(x))
            S.append(z3.Implies(z3.fpGEQ(x, zero), z3.fpGEQ(r, zero)))
            S.append(z3.Implies(z3.fpLEQ(x, zero), z3.fpLEQ(r, zero)))
        if n in ("exp", "expm1", "log", "cbrt"):
            # monotone
            for y, s in self.apps.get(n, []):
                S.append(z3.Implies(z3.fpLEQ(x, y), z3.Or(z3.fpLEQ(r, s), z3.fpIsNaN(r))))
                S.append(z3.Implies(z3.fpLEQ(y, x), z3.Or(z3.fpLEQ(s, r), z3.fpIsNaN(s))))
            self.apps.setdefault(n, []).append((x, r))

    def cond(self, c, pol=True):
        a, b = self.tr(c.a), self.tr(c.b)
        p = c.pred
        un = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if p == "ord":
            f = z3.Not(un)
        elif p == "uno":
            f = un
        else:
            f = {"eq": z3.fpEQ, "ne": z3.fpNEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[p[1:]](a, b)
            if p[1:] == "ne":
                f = z3.And(z3.Not(un), f)
            if p[0] == "u":
                f = z3.Or(un, f)
        return f if pol else z3.Not(f)


class FpOracle:
    def __init__(self, pre, timeout_ms=4000):
        self.pre, self.to = pre, timeout_ms
        self.d = None

    def __call__(self, conds, c):
        r = []
        for pol in (True, False):
            ft = FTrans()
            fs = [ft.cond(k, p) for k, p in conds] + [ft.cond(c, pol)]
            fs += self.pre(ft) + ft.side
            r.append(alg.z3check(fs, self.to)[0] != "unsat")
        return tuple(r)


def solve(mk, timeout_ms, exact=True):
    """z3 in a child process (bit-blasting does not always honour its limit);
    -> ('unsat'|'sat'|'unknown', {name: float})"""
    import json
    import os
    import select
    import signal

    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            names, fs = mk()
            s = z3.SolverFor("QF_FP") if exact else z3.Solver()
            s.set("timeout", int(timeout_ms))
            s.add(*fs)
            v = str(s.check())
            if v == "unknown" and os.environ.get("FPDEBUG"):
                print(s.reason_unknown())
            env = {}
            if v == "sat":
                m = s.model()
                for n in names:
                    b = z3.simplify(z3.fpToIEEEBV(m.eval(z3.FP(n, F64), model_completion=True)))
                    env[n] = b.as_long() if z3.is_bv_value(b) else 0
            os.write(w, json.dumps([v, env]).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    end = t0 + timeout_ms / 1000 + 5
    while True:
        left = end - time.time()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            break
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    try:
        os.kill(pid, 9)
    except OSError:
        pass
    os.waitpid(pid, 0)
    v, env = "unknown", {}
    if buf:
        v, env = json.loads(buf.decode())
    s = alg.STATS
    s.queries += 1
    s.time += time.time() - t0
    if v in ("sat", "unsat"):
        setattr(s, v, getattr(s, v) + 1)
    else:
        s.unknown += 1
    return v, {k: struct.unpack("<d", struct.pack("<Q", b))[0] for k, b in env.items()}


class FpOb:
    """fid(args) under pre satisfies post, for all doubles.
    pre(v) -> list of z3 facts over the inputs v[name]; post(v, outs) -> list
    of (label, z3 Bool)"""

    maxpaths = 400

    def __init__(self, oid, fid, names, pre, post, nin=(), samples=None, tier="quick", limit=200, bounds="", fixed=None, marks=MARKS):
        self.marks = marks
        self.id, self.fid, self.names, self.pre, self.post, self.nin = oid, fid, list(names), pre, post, list(nin)
        self.tier, self.limit, self.samples, self.bounds = tier, limit, samples, bounds
        self.fixed = fixed or {}
        self.dom = self

    def describe(self):
        return self.bounds

    def facts_(self, ft):
        v = {n: z3.FP(n, F64) for n in set(self.names)}
        return self.pre(v)

    def run(self, env):
        t0 = time.time()
        alg.STATS = alg.Stats()
        res = {"id": self.id, "status": "ok", "asserts": 0, "leaves": 0, "infeasible": 0, "validated": 0, "paths": 0, "used": []}
        used = set()
        try:
            self._run(env, res, used)
        except (Unsupported, symex.Budget) as x:
            res["status"], res["detail"] = "inconclusive", {"why": "unsupported: %s" % x}
        except alg.Inconclusive as x:
            res["status"], res["detail"] = "inconclusive", {"why": str(x)}
        except Exception as x:
            import traceback

            res["status"], res["detail"] = "error", {"why": repr(x), "trace": traceback.format_exc()[-1500:]}
        res["used"] = sorted(used)
        s = alg.STATS
        res["solver"] = {"queries": s.queries, "unsat": s.unsat, "sat": s.sat, "unknown": s.unknown, "time": s.time, "lemmas": s.lemmas}
        res["time"] = time.time() - t0
        return res

    def native(self, env, pt):
        a = [pt[n] for n in self.names]
        r = native.run(env.lib, [[self.fid, a, self.nin]], 30)
        return (a, None) if isinstance(r, tuple) else (a, r[0])

    def fails(self, env, pt, f, outs, terms):
        """the compiled code violates f at this point"""
        a, r = self.native(env, pt)
        if r is None or outs[0] == "panic":
            return r is None and outs[0] == "panic"
        val = lambda x: z3.FPVal(x, F64) if x == x else z3.fpNaN(F64)
        vv = {n: val(x) for n, x in pt.items()}
        if not all(z3.is_true(z3.simplify(c)) for c in self.pre(vv)):
            return False
        oo = [val(x) for x in r]
        return len(oo) >= len(terms) and z3.is_false(z3.simplify(f(vv, oo)))

    def _run(self, env, res, used):
        ex = FpExec(env.prog)
        ex.base, ex.maxfree, ex.used = [], None, used
        ex.oracle = FpOracle(self.facts_)
        rin = [t_.var(n) for n in self.names]
        paths = symex.seq_call(ex, [(self.fid, rin, self.nin)], max_paths=self.maxpaths)
        res["paths"] = len(paths)
        end = time.time() + self.limit
        pend = None
        for conds, outs in paths:
            outs = outs[0] if isinstance(outs, list) else outs
            v = {n: z3.FP(n, F64) for n in set(self.names)}
            if outs[0] == "panic":
                posts = [("does not panic", lambda v, o: z3.BoolVal(False))]
                terms = []
            else:
                terms = outs[1]
                k = len(self.post(v, [z3.FP("o%d" % i, F64) for i in range(len(terms))]))
                posts = [(self.post(v, [z3.FP("o%d" % i, F64) for i in range(len(terms))])[j][0], lambda v, o, j=j: self.post(v, o)[j][1]) for j in range(k)]
            for label, f in posts:
                res["asserts"] += 1

                def mk(f=f, abstract=False):
                    ft = FTrans(abstract, self.marks)
                    v = {n: z3.FP(n, F64) for n in set(self.names)}
                    fs = [ft.cond(c, p) for c, p in conds]
                    o = [ft.tr(x) for x in terms]
                    fs.append(z3.Not(f(v, o)))
                    return sorted(v), fs + self.pre(v) + ft.side

                verdict, pt = solve(lambda: mk(abstract=True), 20000, False)
                if verdict == "unsat":
                    continue
                tried = [pt] if verdict == "sat" else []
                verdict = None
                if tried and self.fails(env, tried[0], f, outs, terms):
                    pt = tried[0]
                else:
                    verdict, pt = solve(mk, max(1000, (end - time.time()) * 1000))
                if verdict == "unsat":
                    continue
                if verdict == "unknown":
                    raise alg.Inconclusive("%s: solver gave up" % label)
                a, r = self.native(env, pt)
                rec = {"label": label, "kind": "fp", "point": pt, "calls": [{"calls": [[self.fid, a, self.nin]], "native": r}], "path": []}
                ok = self.fails(env, pt, f, outs, terms)
                if ok:
                    res["status"], res["detail"] = "violation", rec
                    return
                # a library function behaves better than its axioms say
                pend = rec
            res["leaves"] += 1
        if pend:
            pend["why"] = "counterexample of the abstraction of a library function, not of the code"
            res["status"], res["detail"] = "unconfirmed", pend
            return
        # the encoding against the compiled code at a few points
        rng = random.Random(7)
        for _ in range(3):
            pt = self.samples(rng)
            a, r = self.native(env, pt)
            for conds, outs in paths:
                outs = outs[0] if isinstance(outs, list) else outs
                ft = FTrans()
                sub = [(z3.FP(n, F64), z3.FPVal(x, F64)) for n, x in pt.items()]
                cs = [z3.simplify(z3.substitute(ft.cond(c, p), *sub)) for c, p in conds]
                if outs[0] == "panic" or not all(z3.is_true(c) for c in cs):
                    continue
                for x, y in zip(outs[1], r or []):
                    z = z3.simplify(z3.substitute(ft.tr(x), *sub))
                    if z3.is_fp_value(z):
                        b = z3.simplify(z3.fpToIEEEBV(z))
                        w = struct.unpack("<d", struct.pack("<Q", b.as_long()))[0] if z3.is_bv_value(b) else float("nan")
                        if not (w == y or (w != w and y != y)):
                            raise alg.Inconclusive("encoding validation failed: %r vs %r at %r" % (w, y, pt))
                        res["validated"] += 1
