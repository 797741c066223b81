"""Symbolic executor for the LLVM IR of the harness and of qcd-sme.

Memory, pointers and control flow are concrete; f64 values are terms (real
arithmetic semantics); u32 inputs may be symbolic.  A branch on a symbolic
condition forks by re-execution with a longer decision prefix.
"""
import re as _re
import struct
from fractions import Fraction

import term as t_
from term import T

PTR_NULL = 0


class Ptr:
    __slots__ = ("o", "off")

    def __init__(self, o, off):
        self.o, self.off = o, off

    def __repr__(self):
        return "Ptr(%s+%d)" % (self.o.name, self.off)

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.o is self.o and x.off == self.off

    def __hash__(self):
        return hash((id(self.o), self.off))


class Obj:
    __slots__ = ("name", "size", "cells", "raw", "alive", "ro")

    def __init__(self, name, size, raw=None):
        self.name, self.size, self.cells, self.raw, self.alive, self.ro = name, size, {}, raw, True, False


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Bits:
    """an f64 term moved through an integer register"""

    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class Wide:
    """a 128-bit register holding two 64-bit parts, at least one of them symbolic"""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts


class Undef:
    pass


UNDEF = Undef()


class Panic(Exception):
    def __init__(self, what):
        Exception.__init__(self, what)
        self.what = what


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Cond:
    """a symbolic condition  a REL b  over real terms, REL in lt le eq"""

    __slots__ = ("rel", "a", "b")

    def __init__(self, rel, a, b):
        self.rel, self.a, self.b = rel, a, b

    def key(self):
        return (self.rel, self.a.id, self.b.id)

    def __repr__(self):
        return "(%s %s %s)" % (t_.show(self.a, 5), {"lt": "<", "le": "<=", "eq": "=="}[self.rel], t_.show(self.b, 5))


class Path:
    def __init__(self):
        self.conds = []  # (Cond, bool)
        self.known = {}


SIGNED = {"slt", "sle", "sgt", "sge"}


class Cut(Exception):
    """a path left the stated bound"""


class Exec:
    maxfree = None

    def __init__(self, prog, oracle=None, max_steps=3_000_000):
        self.prog = prog
        self.oracle = oracle  # oracle(conds, cond) -> (can_true, can_false)
        self.max_steps = max_steps
        self.used = set()
        self.hcache = {}
        self.stats = {"instructions": 0, "paths": 0}
        self.global_over = {}
        self.base = []

    # ------------------------------------------------------------ driving
    def run_paths(self, go, max_paths, what):
        """go(self) on every feasible path -> list of (conds, result of go)"""
        work = [[]]
        res = []
        while work:
            dec = work.pop()
            if len(res) > max_paths:
                raise Budget("more than %d paths in %s" % (max_paths, what))
            self.reset(dec)
            try:
                out = go(self)
            except Cut:
                # beyond the stated bound on free decisions
                self.stats["cut"] = self.stats.get("cut", 0) + 1
                work += self.alts
                continue
            self.stats["paths"] += 1
            for alt in self.alts:
                work.append(alt)
            res.append((list(self.path.conds), out))
        return res

    def reset(self, dec):
        self.globals = {}
        self.scope = None
        self.dec = dec
        self.decpos = 0
        self.alts = []
        self.path = Path()
        for c, v in self.base:
            self.path.conds.append((c, v))
            self.path.known[c.key()] = v
        self.steps = 0
        self.depth = 0
        self.integrals = 0
        self.heap = 0

    scope = None  # conditions implied by the interval of the current integral

    def decide(self, c):
        """resolve a symbolic condition, forking if needed"""
        k = c.key()
        kn = self.path.known.get(k)
        if kn is not None:
            return kn
        forced = False
        if self.decpos < len(self.dec):
            v = self.dec[self.decpos]
            if isinstance(v, str):
                forced, v = True, v == "T"
        else:
            ct, cf = (True, True) if self.oracle is None else self.oracle(self.path.conds, c)
            if not ct and not cf:
                ct = True  # infeasible prefix kept; reported downstream as vacuous
            if ct and cf:
                if self.maxfree is not None and sum(1 for x in self.dec[: self.decpos] if not isinstance(x, str)) >= self.maxfree:
                    raise Cut()
                self.alts.append(self.dec[: self.decpos] + [False])
                v = True
                self.dec = self.dec[: self.decpos] + [True]
            else:
                v = ct
                forced = True
                self.dec = self.dec[: self.decpos] + ["T" if v else "F"]
        self.decpos += 1
        if forced and self.scope is not None:
            self.scope.append((c, v))
        self.path.known[k] = v
        self.path.conds.append((c, v))
        return v

    def lt(self, a, b):
        return self._cmp("lt", a, b)

    def le(self, a, b):
        return self._cmp("le", a, b)

    def eq(self, a, b):
        if a.id > b.id:
            a, b = b, a
        return self._cmp("eq", a, b)

    def _cmp(self, rel, a, b):
        if a.op == "num" and b.op == "num":
            x, y = a.a[0], b.a[0]
            return {"lt": x < y, "le": x <= y, "eq": x == y}[rel]
        if a is b:
            return rel != "lt"
        for x in (a, b):
            if x.op == "inf" or x.op == "nan":
                raise Unsupported("comparison with inf/nan")
        if rel == "eq":
            return self.decide(Cond("eq", a, b))
        # reuse complementary knowledge
        kn = self.path.known.get(({"lt": "le", "le": "lt"}[rel], b.id, a.id))
        if kn is not None:
            return not kn
        return self.decide(Cond(rel, a, b))

    # ------------------------------------------------------------ memory
    def alloc(self, name, size):
        return Ptr(Obj(name, size), 0)

    def store_scalar(self, p, val, size):
        if not isinstance(p, Ptr):
            raise Unsupported("store through %r" % (p,))
        o, off = p.o, p.off
        if not o.alive:
            raise Unsupported("store to freed object")
        if size == 16:
            lo, hi = (val, val) if val is UNDEF else (val & (1 << 64) - 1, val >> 64) if isinstance(val, int) else val.parts
            self.store_scalar(p, lo, 8)
            self.store_scalar(Ptr(o, off + 8), hi, 8)
            return
        if off < 0 or off + size > o.size:
            raise Unsupported("out-of-bounds store in %s" % o.name)
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == size:
            cells[off] = (size, val)
            return
        for q in range(off - 7, off + size):
            c = cells.get(q)
            if c is None:
                continue
            if q + c[0] <= off:
                continue
            if q >= off and q + c[0] <= off + size:
                del cells[q]
                continue
            b = self.tobytes(c)
            del cells[q]
            for i, x in enumerate(b):
                cells[q + i] = (1, x)
            for i in range(off, off + size):
                cells.pop(i, None)
        cells[off] = (size, val)

    def tobytes(self, c):
        size, v = c
        if isinstance(v, int):
            return v.to_bytes(size, "little")
        if isinstance(v, T):
            if v.op == "num" and size == 8:
                return struct.pack("<d", float(v.a[0]))
        if v is UNDEF:
            return [UNDEF] * size
        raise Unsupported("partial access to symbolic cell %r size %s" % (v, size))

    def load_scalar(self, p, ty):
        if not isinstance(p, Ptr):
            raise Unsupported("load through %r" % (p,))
        o, off, size = p.o, p.off, ty.size
        if not o.alive:
            raise Unsupported("load from freed object")
        if size == 16:
            lo, hi = (self.load_scalar(Ptr(o, off + i), _I64) for i in (0, 8))
            if isinstance(lo, int) and isinstance(hi, int):
                return lo | hi << 64
            return UNDEF if lo is UNDEF and hi is UNDEF else Wide((lo, hi))
        if off < 0 or off + size > o.size:
            raise Unsupported("out-of-bounds load in %s" % o.name)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return self.conv(c[1], ty)
        bs = []
        i = off
        while i < off + size:
            c = None
            for q in range(i, max(i - 8, -1), -1):
                c = o.cells.get(q)
                if c is not None:
                    break
            if c is not None and q + c[0] > i:
                b = self.tobytes(c)
                bs.append(b[i - q])
            elif o.raw is not None:
                bs.append(o.raw[i])
            else:
                bs.append(UNDEF)
            i += 1
        if any(x is UNDEF for x in bs):
            if all(x is UNDEF for x in bs):
                return UNDEF
            if ty.k == "int":
                return UNDEF
            raise Unsupported("load of partially undefined bytes")
        v = int.from_bytes(bytes(bs), "little")
        return self.conv(v, ty)

    def conv(self, v, ty):
        k = ty.k
        if k == "f64":
            if isinstance(v, T):
                return v
            if isinstance(v, Bits):
                return v.t
            if isinstance(v, int):
                return t_.lift(struct.unpack("<d", v.to_bytes(8, "little"))[0])
        elif k == "int":
            if isinstance(v, int):
                return v & ((1 << ty.n) - 1)
            if isinstance(v, T):
                if ty.n == 64 and v.op != "ivar_":
                    return Bits(v) if not self.isint(v) else v
                return v
            if isinstance(v, (Bits, Ptr)):
                return v
        elif k == "ptr":
            return v
        if v is UNDEF:
            return v
        raise Unsupported("conv %r to %s" % (v, ty))

    def isint(self, v):
        return v.id in INTVARS

    def load(self, p, ty):
        if ty.k == "struct":
            return [self.load(Ptr(p.o, p.off + o), s) for o, s in zip(ty.offs, ty.sub)]
        if ty.k == "arr":
            return [self.load(Ptr(p.o, p.off + i * ty.sub.size), ty.sub) for i in range(ty.n)]
        return self.load_scalar(p, ty)

    def store(self, p, v, ty):
        if ty.k == "struct":
            for o, s, x in zip(ty.offs, ty.sub, v):
                self.store(Ptr(p.o, p.off + o), x, s)
        elif ty.k == "arr":
            for i in range(ty.n):
                self.store(Ptr(p.o, p.off + i * ty.sub.size), v[i], ty.sub)
        else:
            self.store_scalar(p, v, ty.size)

    def memcpy(self, d, s, n):
        if n == 0:
            return
        if not isinstance(d, Ptr) or not isinstance(s, Ptr):
            raise Unsupported("memcpy through %r %r" % (d, s))
        if not (s.o.alive and d.o.alive):
            raise Unsupported("memcpy of freed object")
        if s.off < 0 or s.off + n > s.o.size or d.off < 0 or d.off + n > d.o.size:
            raise Unsupported("out-of-bounds memcpy")
        items = []
        i = s.off
        end = s.off + n
        sc = s.o.cells
        while i < end:
            c = sc.get(i)
            if c is not None and i + c[0] <= end:
                items.append((i - s.off, c[0], c[1]))
                i += c[0]
                continue
            # byte-wise
            cov = None
            for q in range(i, max(i - 8, -1), -1):
                cc = sc.get(q)
                if cc is not None:
                    cov = (q, cc)
                    break
            if cov and cov[0] + cov[1][0] > i:
                items.append((i - s.off, 1, self.tobytes(cov[1])[i - cov[0]]))
            elif s.o.raw is not None:
                items.append((i - s.off, 1, s.o.raw[i]))
            else:
                items.append((i - s.off, 1, UNDEF))
            i += 1
        for off, sz, v in items:
            if v is UNDEF:
                # keep destination bytes undefined
                q = d.off + off
                c = d.o.cells.get(q)
                if c is None or c[0] != 1:
                    ok = True
                    for qq in range(q - 7, q + 1):
                        cc = d.o.cells.get(qq)
                        if cc and qq + cc[0] > q:
                            ok = False
                    if ok:
                        continue
            self.store_scalar(Ptr(d.o, d.off + off), v, sz)

    # ------------------------------------------------------------ globals
    def glob(self, name):
        g = self.globals.get(name)
        if g is not None:
            return g
        if self.prog.has(name):
            g = FnPtr(name)
        elif name in self.prog.gwhere:
            ty, c = self.prog.global_init(name)
            o = Obj("@" + name, ty.size)
            g = Ptr(o, 0)
            self.globals[name] = g
            if c is None:
                raise Unsupported("external global " + name)
            self.init(g, ty, c)
        else:
            g = FnPtr(name)
        self.globals[name] = g
        return g

    def init(self, p, ty, c):
        if c[0] == "z":
            for i in range(ty.size):
                p.o.cells[p.off + i] = (1, 0)
        elif c[0] == "s":
            for i, b in enumerate(c[1]):
                p.o.cells[p.off + i] = (1, b)
        elif c[0] == "a":
            if ty.k == "arr":
                for i, (et, e) in enumerate(c[1]):
                    self.init(Ptr(p.o, p.off + i * ty.sub.size), et, e)
            else:
                for off, (et, e) in zip(ty.offs, c[1]):
                    self.init(Ptr(p.o, p.off + off), et, e)
        elif c[0] == "u":
            pass
        else:
            self.store(p, self.val(c, {}, ty), ty)

    # ------------------------------------------------------------ operands
    def val(self, o, env, ty=None):
        k = o[0]
        if k == "l":
            return env[o[1]]
        if k == "c":
            v = o[1]
            if isinstance(v, float):
                return t_.lift(v)
            return v
        if k == "g":
            return self.glob(o[1])
        if k == "u":
            return self.undef(o[1])
        if k == "z":
            return self.zero(o[1])
        if k == "a":
            return [self.val(e, env, t) for t, e in o[1]]
        if k == "gep":
            return self.gep(o[1], self.val(o[2], env), [(t, self.val(x, env, t)) for t, x in o[3]])
        raise Unsupported("operand %r" % (o,))

    def undef(self, ty):
        if ty.k == "struct":
            return [self.undef(s) for s in ty.sub]
        if ty.k == "arr":
            return [self.undef(ty.sub) for _ in range(ty.n)]
        return UNDEF

    def zero(self, ty):
        if ty.k == "struct":
            return [self.zero(s) for s in ty.sub]
        if ty.k == "arr":
            return [self.zero(ty.sub) for _ in range(ty.n)]
        return t_.ZERO if ty.k == "f64" else 0

    def gep(self, ty, base, idx):
        off = 0
        cur = ty
        for j, (it, v) in enumerate(idx):
            if not isinstance(v, int):
                raise Unsupported("symbolic index")
            if v >= 1 << (it.n - 1):
                v -= 1 << it.n
            if j == 0:
                off += v * cur.size
            elif cur.k == "arr":
                cur = cur.sub
                off += v * cur.size
            else:
                off += cur.offs[v]
                cur = cur.sub[v]
        if isinstance(base, Ptr):
            return Ptr(base.o, base.off + off)
        if isinstance(base, int):
            return base + off
        raise Unsupported("gep on %r" % (base,))

    # ------------------------------------------------------------ calls
    def human(self, name):
        h = self.hcache.get(name)
        if h is None:
            h = self.prog.human.get(name, name)
            self.hcache[name] = h
        return h

    def call(self, name, args):
        h = self.human(name)
        r = self.intercept(name, h, args)
        if r is not NotImplemented:
            return r
        if not self.prog.has(name):
            raise Unsupported("external function %s (%s)" % (name, h))
        fn = self.prog.function(name)
        if h.startswith("peroxide::numerical::integral::integrate::<"):
            return self.integrate(fn, args)
        return self.run(fn, args)

    def integrate(self, fn, args):
        pm = args[-1]
        a, b = args[-3], args[-2]
        if not (isinstance(a, T) and isinstance(b, T) and isinstance(pm, Ptr)):
            raise Unsupported("integrate ABI")
        method = tuple((off - pm.off, c[1] if not isinstance(c[1], Bits) else c[1].t) for off, c in sorted(pm.o.cells.items()) if pm.off <= off < pm.off + 16 and c[1] is not UNDEF)
        mm = []
        tag = None
        for off, v in method:
            if off == 0:
                tag = v
                mm.append("tag%s" % v)
            else:
                mm.append(v if isinstance(v, T) else t_.num(v) if isinstance(v, int) else v)
        env, cname = self.closure_of(fn, args[:-3])
        self.integrals += 1
        iv = (Cond("lt", a, t_.TAU), Cond("lt", t_.TAU, b))
        outer = self.scope
        if a.op == "num" and b.op == "num":
            if a.a[0] < b.a[0]:
                for c in iv:
                    if c.key() not in self.path.known:
                        self.path.known[c.key()] = True
                        self.path.conds.append((c, True))
        else:
            # within this integrand only: the variable lies in the interval
            self.scope = []
            for c in iv:
                if c.key() not in self.path.known:
                    self.path.known[c.key()] = True
                    self.path.conds.append((c, True))
                    self.scope.append((c, True))
        v = self.run(self.prog.function(cname), env + [t_.TAU])
        if self.scope is not outer:
            drop = {c.key() for c, _ in self.scope if t_.free_tau([c.a, c.b])}
            for k in drop:
                self.path.known.pop(k, None)
            self.path.conds = [(c, q) for c, q in self.path.conds if c.key() not in drop]
            self.scope = outer
        if isinstance(v, T):
            return t_.mkint(v, a, b, tuple(mm))
        f = t_.mkc(v[0], v[1])
        w = t_.mkint(f, a, b, tuple(mm))
        return self.cret(w)

    def closure_of(self, fn, cargs):
        """the integrand of integrate::<F, Y>: F's body and its environment"""
        h = self.human(fn.name)
        g = h[len("peroxide::numerical::integral::integrate::<") :]
        d = 0
        for i, ch in enumerate(g):
            if ch in "<([{":
                d += 1
            elif ch in ">)]}" and g[i - 1] != "-":
                d -= 1
            elif ch == "," and d == 0:
                break
        F = g[:i].replace('::<', '<')
        if not hasattr(self.prog, "byhuman"):
            self.prog.byhuman = {}
            self.prog.nmods = 0
        if self.prog.nmods != len(self.prog.mods):
            self.prog.byhuman = {}
            for m in self.prog.mods:
                for n in m.fnpos:
                    if n in m.human:
                        self.prog.byhuman.setdefault(m.human[n].replace('::<', '<'), n)
            self.prog.nmods = len(self.prog.mods)
        c = self.prog.byhuman.get(F)
        if c is None:
            raise Unsupported("integrand body not found: " + F)
        cf = self.prog.function(c)
        if cf.params[-1][0].k != "f64":
            raise Unsupported("integrand signature of " + F)
        n = len(cf.params) - 1
        ps = fn.params[:-3]
        if n == 0:
            return [], c
        if not ps:
            return [self.alloc("env", 0)], c
        if len(ps) == 1 and ps[0][0].k == "ptr" and not self.byvalue(fn, 0):
            return [cargs[0]], c
        env = self.alloc("env", 8 * len(ps) + 8)
        off = 0
        for (ty, nm, at), v in zip(ps, cargs):
            off = (off + ty.align - 1) // ty.align * ty.align
            self.store(Ptr(env.o, off), v, ty)
            off += ty.size
        return [env], c

    def byvalue(self, fn, i, depth=4):
        """is the pointer parameter the closure itself (one captured
        reference) rather than its address? It is where the compiler gives it
        a stack slot of its own, here or in a function it is handed to"""
        name = fn.params[i][1]
        stored = {k[3][1] for b in fn.blocks.values() for k in b if k[0] == "store" and k[3][0] == "l"}
        if name in stored and name.lstrip("%").isdigit():
            return True
        if depth:
            for b in fn.blocks.values():
                for k in b:
                    if k[0] == "call" and k[3][0] == "g" and not k[3][1].startswith("llvm."):
                        for j, (ty, x) in enumerate(k[4]):
                            if x[0] == "l" and x[1] == name:
                                try:
                                    g = self.prog.function(k[3][1])
                                except Exception:
                                    continue
                                if j < len(g.params) and self.byvalue(g, j, depth - 1):
                                    return True
        return False

    def run(self, fn, args):
        self.used.add(fn.name)
        self.depth += 1
        if self.depth > 400:
            raise Budget("call depth")
        env = {}
        for (ty, nm, at), v in zip(fn.params, args):
            env[nm] = v
        blocks = fn.blocks
        cur = fn.entry
        prev = None
        while True:
            blk = blocks[cur]
            n = len(blk)
            self.steps += n
            self.stats["instructions"] += n
            if self.steps > self.max_steps:
                raise Budget("instruction budget in " + fn.name)
            nxt = None
            for ins in blk:
                op = ins[0]
                if op == "call":
                    r = self.do_call(ins, env)
                    if ins[1] is not None:
                        env[ins[1]] = r
                    if ins[5] is not None:
                        nxt = ins[5]
                elif op == "load":
                    env[ins[1]] = self.load(self.val(ins[3], env), ins[2])
                elif op == "store":
                    self.store(self.val(ins[4], env), self.val(ins[3], env, ins[2]), ins[2])
                elif op == "getelementptr":
                    env[ins[1]] = self.gep(ins[2], self.val(ins[3], env), [(t, self.val(x, env, t)) for t, x in ins[4]])
                elif op == "extractvalue":
                    v = self.val(ins[3], env)
                    for i in ins[4]:
                        v = v[i]
                    env[ins[1]] = v
                elif op == "insertvalue":
                    v = self.val(ins[3], env)
                    x = self.val(ins[5], env, ins[4])
                    env[ins[1]] = self.insert(v, x, ins[6])
                elif op == "alloca":
                    env[ins[1]] = Ptr(Obj(ins[1], ins[2].size), 0)
                elif op == "jmp":
                    nxt = ins[2]
                elif op == "br":
                    c = self.val(ins[2], env)
                    if c is UNDEF:
                        raise Unsupported("branch on undef in " + fn.name)
                    nxt = ins[3] if c else ins[4]
                elif op == "ret":
                    self.depth -= 1
                    return None if ins[3] is None else self.val(ins[3], env, ins[2])
                elif op == "phi":
                    for lab, v in ins[3]:
                        if lab == prev:
                            env[ins[1]] = self.val(v, env, ins[2])
                            break
                elif op == "switch":
                    v = self.val(ins[3], env)
                    if not isinstance(v, int):
                        if isinstance(v, T):
                            nxt = None
                            for cv, lab in ins[5]:
                                if self.eq(v, t_.num(cv)):
                                    nxt = lab
                                    break
                            if nxt is None:
                                nxt = ins[4]
                        else:
                            raise Unsupported("switch on %r" % (v,))
                    else:
                        nxt = ins[4]
                        for cv, lab in ins[5]:
                            if cv == v:
                                nxt = lab
                                break
                elif op == "unreachable":
                    raise Unsupported("unreachable executed in " + fn.human)
                else:
                    env[ins[1]] = self.scalar(ins, env)
            if nxt is None:
                raise Unsupported("fallthrough in " + fn.name)
            prev, cur = cur, nxt

    def insert(self, v, x, idx):
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insert(v[idx[0]], x, idx[1:])
        return v

    FOP = {"fadd": t_.add, "fsub": t_.sub, "fmul": t_.mul, "fdiv": t_.div}

    def scalar(self, ins, env):
        op = ins[0]
        ty = ins[2]
        f = self.FOP.get(op)
        if f is not None:
            a, b = self.val(ins[3], env), self.val(ins[4], env)
            if a is UNDEF or b is UNDEF:
                raise Unsupported("arithmetic on undef: " + repr(ins))
            if a is t_.INF or b is t_.INF:
                raise Unsupported("arithmetic on infinity")
            return f(a, b)
        if op == "fneg":
            a = self.val(ins[3], env)
            return a if a is t_.INF else t_.neg(a)
        if op == "fcmp":
            return 1 if self.fcmp(ins[3], self.val(ins[4], env), self.val(ins[5], env)) else 0
        if op == "icmp":
            return 1 if self.icmp(ins[3], self.val(ins[4], env), self.val(ins[5], env), ty) else 0
        if op == "select":
            c = self.val(ins[3], env)
            return self.val(ins[4], env, ty) if c else self.val(ins[5], env, ty)
        if op == "freeze":
            return self.val(ins[3], env, ty)
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            return self.iop(op, self.val(ins[3], env), self.val(ins[4], env), ty.n)
        if op in ("zext", "trunc", "sext"):
            v = self.val(ins[3], env)
            if isinstance(v, int):
                if op == "sext":
                    if v >> (ty.n - 1):
                        v |= ((1 << ins[4].n) - 1) ^ ((1 << ty.n) - 1)
                    return v
                return v & ((1 << ins[4].n) - 1)
            if isinstance(v, T) and op in ("zext", "sext"):
                return v
            if isinstance(v, T) and op == "trunc" and ins[4].n >= 32:
                return v
            if v is UNDEF:
                return v
            if isinstance(v, Wide) and op == "trunc" and ins[4].n == 64:
                return v.parts[0]
            raise Unsupported("%s of %r" % (op, v))
        if op in ("uitofp", "sitofp"):
            v = self.val(ins[3], env)
            if isinstance(v, T):
                return v
            if op == "sitofp" and v >> (ty.n - 1):
                v -= 1 << ty.n
            return t_.num(v)
        if op in ("fptoui", "fptosi"):
            v = self.val(ins[3], env)
            if v.op == "num":
                return int(v.a[0]) & ((1 << ins[4].n) - 1)
            raise Unsupported("fptoint of symbolic")
        if op == "ptrtoint":
            v = self.val(ins[3], env)
            return v
        if op == "inttoptr":
            return self.val(ins[3], env)
        if op == "bitcast":
            v = self.val(ins[3], env)
            return self.conv(v, ins[4]) if ty.k != ins[4].k else v
        raise Unsupported("instruction %s %s" % (op, ins[2]))

    def fcmp(self, pred, a, b):
        if pred in ("true", "false"):
            return pred == "true"
        if a is t_.NAN or b is t_.NAN:
            return pred[0] == "u"
        if pred == "ord":
            return True
        if pred == "uno":
            return False
        r = pred[1:]
        if a is t_.INF or b is t_.INF:
            # |x| compared against infinity: finite values only
            if r == "eq":
                return False
            if r == "ne":
                return True
            raise Unsupported("ordering against infinity")
        if r == "eq":
            return self.eq(a, b)
        if r == "ne":
            return not self.eq(a, b)
        if r == "lt":
            return self.lt(a, b)
        if r == "le":
            return self.le(a, b)
        if r == "gt":
            return self.lt(b, a)
        return self.le(b, a)

    def icmp(self, pred, a, b, ty):
        if isinstance(a, int) and isinstance(b, int):
            if pred in SIGNED:
                n = ty.n if ty.k == "int" else 64
                a = a - (1 << n) if a >> (n - 1) else a
                b = b - (1 << n) if b >> (n - 1) else b
            p = pred[-2:] if pred not in ("eq", "ne") else pred
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p]
        if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, FnPtr) or isinstance(b, FnPtr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if pred == "eq":
                    return a == b
                if pred == "ne":
                    return not (a == b)
                if a.o is b.o:
                    p = pred[-2:]
                    return {"lt": a.off < b.off, "le": a.off <= b.off, "gt": a.off > b.off, "ge": a.off >= b.off}[p]
                raise Unsupported("ordering of unrelated pointers")
            if pred in ("eq", "ne"):
                return pred == "ne"
            # address compared with an integer: addresses are large
            if isinstance(a, Ptr):
                return pred in ("ugt", "uge")
            return pred in ("ult", "ule")
        if isinstance(a, (Bits,)) or isinstance(b, (Bits,)):
            raise Unsupported("integer comparison of f64 bits")
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undef")
        a = a if isinstance(a, T) else t_.num(a)
        b = b if isinstance(b, T) else t_.num(b)
        p = pred[-2:] if pred not in ("eq", "ne") else pred
        if p == "eq":
            return self.eq(a, b)
        if p == "ne":
            return not self.eq(a, b)
        if p == "lt":
            return self.lt(a, b)
        if p == "le":
            return self.le(a, b)
        if p == "gt":
            return self.lt(b, a)
        return self.le(b, a)

    def iop(self, op, a, b, n):
        M = (1 << n) - 1
        if isinstance(a, Wide) and op == "lshr" and b == 64:
            hi = a.parts[1]
            return hi if isinstance(hi, int) else Wide((hi, 0))
        if isinstance(a, Bits) and isinstance(b, int) and n == 64:
            if (op, b) == ("and", M >> 1):
                return Bits(self.m_fabs(a.t))
            if (op, b) == ("xor", 1 << 63):
                return Bits(t_.neg(a.t))
            if (op, b) in (("and", 1 << 63), ("lshr", 63)):
                s = 1 if self.lt(a.t, t_.ZERO) else 0
                return s << 63 if op == "and" else s
        if isinstance(a, int) and isinstance(b, int):
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "udiv":
                return a // b
            if op == "urem":
                return a % b
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M
            if op == "lshr":
                return a >> b
            sa = a - (1 << n) if a >> (n - 1) else a
            sb = b - (1 << n) if b >> (n - 1) else b
            if op == "ashr":
                return (sa >> b) & M
            if op in ("sdiv", "srem"):
                q = abs(sa) // abs(sb)
                if (sa < 0) != (sb < 0):
                    q = -q
                return (q if op == "sdiv" else sa - q * sb) & M
        if isinstance(a, Ptr) and isinstance(b, int):
            if op == "add":
                return Ptr(a.o, a.off + b)
            if op == "sub":
                return Ptr(a.o, a.off - b)
            if op == "and":  # alignment tests: objects are 16-aligned
                if b < 16:
                    return a.off & b
        if isinstance(a, Ptr) and isinstance(b, Ptr) and op == "sub" and a.o is b.o:
            return (a.off - b.off) & M
        if isinstance(a, T) or isinstance(b, T):
            if op in ("add", "mul", "sub"):
                a = a if isinstance(a, T) else t_.num(a)
                b = b if isinstance(b, T) else t_.num(b)
                r = {"add": t_.add, "mul": t_.mul, "sub": t_.sub}[op](a, b)
                INTVARS.add(r.id)
                return r
        raise Unsupported("integer %s on %r, %r" % (op, a, b))

    def do_call(self, ins, env):
        _, dst, rt, callee, aops, norm = ins
        if callee[0] == "g":
            name = callee[1]
        else:
            f = self.val(callee, env)
            if not isinstance(f, FnPtr):
                raise Unsupported("indirect call through %r" % (f,))
            name = f.name
        if name.startswith("llvm."):
            return self.intrinsic(name, [self.val(x, env, t) for t, x in aops])
        return self.call(name, [self.val(x, env, t) for t, x in aops])

    # ------------------------------------------------------------ intrinsics
    def intrinsic(self, name, a):
        b = name[5:]
        if b.startswith(("lifetime", "dbg", "assume", "experimental.noalias", "donothing")):
            return None
        if b.startswith("threadlocal.address"):
            return a[0]  # one thread
        if b.startswith("memcpy") or b.startswith("memmove"):
            self.memcpy(a[0], a[1], a[2])
            return None
        if b.startswith("memset"):
            for i in range(a[2]):
                self.store_scalar(Ptr(a[0].o, a[0].off + i), a[1], 1)
            return None
        nm = b.split(".")[0]
        f = getattr(self, "m_" + nm, None)
        if f is not None and b.endswith("f64"):
            return f(*a)
        if b.startswith("powi"):
            return self.m_powi(a[0], a[1])
        m = _re.match(r"([us])(add|sub|mul)\.with\.overflow\.i(\d+)", b)
        if m:
            n = int(m.group(3))
            x, y = a
            if isinstance(x, int) and isinstance(y, int):
                if m.group(1) == "s":
                    x = x - (1 << n) if x >> (n - 1) else x
                    y = y - (1 << n) if y >> (n - 1) else y
                r = {"add": x + y, "sub": x - y, "mul": x * y}[m.group(2)]
                lo, hi = (0, (1 << n) - 1) if m.group(1) == "u" else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
                return [r & ((1 << n) - 1), 0 if lo <= r <= hi else 1]
            r = self.iop(m.group(2), x, y, n)
            if m.group(2) == "sub":
                ov = self.lt(r, t_.ZERO)
            else:
                ov = self.lt(t_.num((1 << n) - 1), r)
            return [r, 1 if ov else 0]
        if b.startswith("fptoui.sat") or b.startswith("fptosi.sat"):
            if a[0].op == "num":
                return max(0, int(a[0].a[0]))
            if b.startswith("fptoui") and isinstance(a[0], T):
                v = self.m_trunc(a[0])
                return max(0, int(v.a[0]))
            raise Unsupported("fptosi of a symbolic value")
        if b.startswith("ctpop"):
            return bin(a[0]).count("1")
        if b.startswith("is.fpclass"):
            mask = a[1]
            if a[0] is t_.NAN:
                return 1 if mask & 3 else 0
            raise Unsupported("is.fpclass")
        m = _re.match(r"([us])cmp\.i(\d+)\.i(\d+)", b)
        if m and isinstance(a[0], int) and isinstance(a[1], int):
            n, w = int(m.group(3)), int(m.group(2))
            x, y = a
            if m.group(1) == "s":
                x, y = (v - (1 << n) if v >> (n - 1) else v for v in (x, y))
            return ((x > y) - (x < y)) & ((1 << w) - 1)
        m = _re.match(r"u(add|sub)\.sat\.i(\d+)", b)
        if m and isinstance(a[0], int) and isinstance(a[1], int):
            n = int(m.group(2))
            return max(0, a[0] - a[1]) if m.group(1) == "sub" else min((1 << n) - 1, a[0] + a[1])
        if b.startswith(("umin", "umax", "smin", "smax")):
            x, y = a
            lt = self.icmp("ult" if b[0] == "u" else "slt", x, y, _I64)
            return (x if lt else y) if "min" in b else (y if lt else x)
        if b.startswith("expect"):
            return a[0]
        if b.startswith("abs."):
            raise Unsupported(name)
        if b.startswith("trap"):
            raise Panic("trap")
        raise Unsupported("intrinsic " + name)

    def m_log(self, x):
        return t_.ln(x)

    def m_log2(self, x):
        return t_.div(t_.ln(x), t_.ln(t_.TWO))

    def m_log10(self, x):
        return t_.div(t_.ln(x), t_.ln(t_.num(10)))

    def m_exp(self, x):
        return t_.exp(x)

    def m_exp2(self, x):
        return t_.exp(t_.mul(x, t_.ln(t_.TWO)))

    def m_sqrt(self, x):
        # the square root of a negative real number is not a number
        if self.oracle is not None and isinstance(x, T) and x.op not in ("num", "nan", "inf") and not self.nonneg(x):
            c = Cond("lt", x, t_.ZERO)
            if self.path.known.get(c.key()) is not None or self.oracle(self.path.conds, c)[0]:
                if self.lt(x, t_.ZERO):
                    return t_.NAN
        return t_.sqrt(x)

    def nonneg(self, x):
        if x.op == "num":
            return x.a[0] >= 0
        if x.op in ("pi", "exp", "sqrt", "abs"):
            return True
        if x.op == "var":
            return self.oracle.d.ranges.get(x.a[0], (0, 0, 0))[2] >= 0
        if x.op == "mul":
            return x.a[0] is x.a[1] or self.nonneg(x.a[0]) and self.nonneg(x.a[1])
        if x.op in ("add", "div"):
            return self.nonneg(x.a[0]) and self.nonneg(x.a[1])
        return False

    def m_sin(self, x):
        e = t_.exp(t_.mul(t_.I, x))
        return t_.im(e)

    def m_cos(self, x):
        e = t_.exp(t_.mul(t_.I, x))
        return t_.re(e)

    def m_fma(self, a, b, c):
        return t_.add(t_.mul(a, b), c)

    m_fmuladd = m_fma

    def m_fabs(self, x):
        if x.op == "num":
            return t_.absr(x)
        if x in (t_.NAN, t_.INF):
            return x
        return t_.neg(x) if self.lt(x, t_.ZERO) else x

    def m_copysign(self, x, y):
        ax = self.m_fabs(x)
        return t_.neg(ax) if self.lt(y, t_.ZERO) else ax

    def m_maxnum(self, x, y):
        if x is t_.NAN:
            return y
        if y is t_.NAN:
            return x
        return y if self.lt(x, y) else x

    m_maximumnum = m_maxnum

    def m_minnum(self, x, y):
        if x is t_.NAN:
            return y
        if y is t_.NAN:
            return x
        return x if self.lt(x, y) else y

    m_minimumnum = m_minnum

    def m_pow(self, x, y):
        if y.op == "num":
            f = y.a[0]
            if f.denominator == 1:
                return t_.powi(x, int(f))
            if f.denominator == 2:
                return t_.mul(t_.sqrt(x), t_.powi(x, int(f - Fraction(1, 2))))
            r = self._pow_of_power(x, f)
            if r is not None:
                return r
        return t_.exp(t_.mul(y, t_.ln(x)))

    def _pow_of_power(self, x, c):
        """(prod b_i^k_i)^c = prod b_i^(k_i c) for non-negative bases, when all
        the new exponents are half-integers"""
        fac, co = {}, Fraction(1)
        st = [(x, 1)]
        while st:
            u, k = st.pop()
            if u.op == "mul":
                st += [(u.a[0], k), (u.a[1], k)]
            elif u.op == "div":
                st += [(u.a[0], k), (u.a[1], -k)]
            elif u.op == "neg":
                co = -co
                st.append((u.a[0], k))
            elif u.op == "num":
                if u.a[0] == 0:
                    return None
                co *= u.a[0] ** k
            else:
                fac[u] = fac.get(u, 0) + k
        fac = {u: k for u, k in fac.items() if k}
        if abs(co) != 1 or not fac or any((2 * k * c).denominator != 1 for k in fac.values()):
            return None
        never = lambda a: not (self.oracle is None or self.oracle(self.path.conds, Cond("lt", a, t_.ZERO))[0])
        neg = co < 0
        r = t_.ONE
        for u, k in fac.items():
            if u is t_.PI:
                pass
            elif u.op == "sqrt":
                if not never(u.a[0]):
                    return None
            elif never(t_.neg(u)) and k % 2:
                neg = not neg
                u = t_.neg(u)
            elif not never(u):
                return None
            e = k * c
            v = t_.powi(u, int(e // 1))
            r = t_.mul(r, v if e.denominator == 1 else t_.mul(v, t_.sqrt(u)))
        return None if neg else r

    def m_powi(self, x, n):
        if not isinstance(n, int):
            raise Unsupported("symbolic powi")
        if n >> 31:
            n -= 1 << 32
        return t_.powi(x, n)

    def _to_integer(self, x, lo, hi, incl):
        """the integer c with c+lo .. c+hi around x (forks when several are
        possible); incl(c) -> (lower bound included, upper bound included)"""
        import random

        import alg

        if self.oracle is None or not t_.isreal(x):
            raise Unsupported("integer part of a symbolic value")
        rng, d = random.Random(777), self.oracle.d
        seen = set()
        for _ in range(400):
            names = t_.variables([x] + [k for c, _ in self.path.conds for k in (c.a, c.b)])
            env = {k: alg.MP.mpf(v.numerator) / v.denominator for k, v in d.rand(rng, names).items()}
            memo = {}
            try:
                if not all(alg.cond_holds(k, p, env, memo) for k, p in d.facts + list(self.path.conds)):
                    continue
                v = alg.MP.re(t_.evalmp(x, env, alg.MP, memo))
            except (t_.Undefined, ZeroDivisionError):
                continue
            c = int(alg.MP.floor(v - lo))
            if c in seen:
                continue
            seen.add(c)
            a, b = incl(c)
            C = Fraction(c)
            above = self.le(t_.num(C + lo), x) if a else self.lt(t_.num(C + lo), x)
            if above and (self.le(x, t_.num(C + hi)) if b else self.lt(x, t_.num(C + hi))):
                return t_.num(c)
            if len(seen) > 4:
                break
        raise Unsupported("integer part of a symbolic value")

    def m_floor(self, x):
        if x.op == "num":
            return t_.num(x.a[0].__floor__())
        return self._to_integer(x, Fraction(0), Fraction(1), lambda c: (True, False))

    def m_ceil(self, x):
        if x.op == "num":
            return t_.num(x.a[0].__ceil__())
        return t_.neg(self.m_floor(t_.neg(x)))

    def m_trunc(self, x):
        if x.op == "num":
            return t_.num(int(x.a[0]))
        return t_.neg(self.m_floor(t_.neg(x))) if self.lt(x, t_.ZERO) else self.m_floor(x)

    def m_round(self, x):
        h = Fraction(1, 2)
        if x.op == "num":
            f = x.a[0]
            return t_.num((f + h).__floor__() if f >= 0 else -((-f + h).__floor__()))
        return self._to_integer(x, -h, h, lambda c: (c > 0, c < 0))

    # ------------------------------------------------------------ library
    LIBM1 = {
        "expm1": lambda x: t_.sub(t_.exp(x), t_.ONE),
        "log1p": lambda x: t_.ln(t_.add(t_.ONE, x)),
        "sinh": lambda x: t_.div(t_.sub(t_.exp(x), t_.exp(t_.neg(x))), t_.TWO),
        "cosh": lambda x: t_.div(t_.add(t_.exp(x), t_.exp(t_.neg(x))), t_.TWO),
        "tanh": lambda x: t_.div(t_.sub(t_.exp(x), t_.exp(t_.neg(x))), t_.add(t_.exp(x), t_.exp(t_.neg(x)))),
        "atan": lambda x: t_.im(t_.ln(t_.mkc(t_.ONE, x))),
    }

    def intercept(self, name, h, a):
        if name in self.LIBM1:
            return self.LIBM1[name](a[0])
        if name == "cbrt":
            x, c = a[0], t_.num(Fraction(1, 3))
            return t_.neg(self.m_pow(t_.neg(x), c)) if self.lt(x, t_.ZERO) else self.m_pow(x, c)
        if name == "hypot":
            return t_.sqrt(t_.add(t_.mul(a[0], a[0]), t_.mul(a[1], a[1])))
        if name == "atan2":
            return t_.im(t_.ln(t_.mkc(a[1], a[0])))
        if "__rust" in name and name.startswith("_R"):
            if "rust_dealloc" in name:
                if isinstance(a[0], Ptr):
                    a[0].o.alive = False
                return None
            if "rust_alloc_zeroed" in name:
                p = self.alloc("heap", a[0])
                p.o.raw = bytes(a[0])
                return p
            if "rust_alloc" in name:
                return self.alloc("heap", a[0])
            if "rust_realloc" in name:
                p = self.alloc("heap", a[3])
                self.memcpy(p, Ptr(a[0].o, 0), min(a[1], a[3]))
                a[0].o.alive = False
                return p
            if "no_alloc_shim" in name:
                return None
        if h.startswith("core::panicking::") or h.startswith("core::option::unwrap_failed") or h.startswith("core::result::unwrap_failed") or h.startswith("core::option::expect_failed"):
            raise Panic(h.split("::<")[0])
        if h.startswith("alloc::raw_vec::handle_error") or h.startswith("alloc::alloc::handle_alloc_error"):
            raise Panic(h)
        if h.startswith("std::panicking") or h.startswith("std::rt::begin_panic") or name == "rust_begin_unwind":
            raise Panic(h)
        if "num_complex" in h:
            return self.complex_op(h, a)
        if h.startswith("core::") and ("precondition_check" in h or "::ub_checks::" in h):
            return None
        if name == "memcmp" or name == "bcmp":
            return self.memcmp(a[0], a[1], a[2])
        return NotImplemented

    def memcmp(self, p, q, n):
        for i in range(n):
            x = self.load_scalar(Ptr(p.o, p.off + i), _I8)
            y = self.load_scalar(Ptr(q.o, q.off + i), _I8)
            if x != y:
                return 1 if x > y else 0xFFFFFFFF
        return 0

    CBIN = _re.compile(
        r"^<(?P<ref>&)?(?:'_ )?(?P<a>num_complex::Complex<f64>|f64) as core::ops::arith::(?P<tr>Add|Sub|Mul|Div)"
        r"(?:<(?P<rb>&)?(?P<b>num_complex::Complex<f64>|f64)>)?>::(?:add|sub|mul|div)$"
    )
    CASS = _re.compile(
        r"^<num_complex::Complex<f64> as core::ops::arith::(?P<tr>Add|Sub|Mul|Div)Assign"
        r"(?:<(?P<rb>&)?(?P<b>num_complex::Complex<f64>|f64)>)?>::(?:add|sub|mul|div)_assign$"
    )
    CUN = _re.compile(r"^(?:<num_complex::Complex<f64>>|num_complex::Complex<f64>|num_complex::Complex::<f64>)::(?P<f>ln|sqrt|exp|inv|conj|norm|norm_sqr|arg|powi|powu|finv|l1_norm|to_polar|sinh|cosh|tanh|sin|cos)$")
    CFL = _re.compile(r"^<num_complex::Complex<f64> as num_complex::complex_float::ComplexFloat>::(?P<f>ln|sqrt|exp|recip|conj|abs|arg|powi|l1_norm)$")
    BOP = {"Add": t_.add, "Sub": t_.sub, "Mul": t_.mul, "Div": t_.div}

    def cload(self, p):
        return t_.mkc(self.load_scalar(p, _F64), self.load_scalar(Ptr(p.o, p.off + 8), _F64))

    def cret(self, w):
        return [t_.re(w), t_.im(w)]

    def complex_op(self, h, a):
        c = self.hcache.get(("c", h))
        if c is None:
            c = 0
            for k, rx in (("b", self.CBIN), ("a", self.CASS), ("u", self.CUN), ("f", self.CFL)):
                m = rx.match(h)
                if m:
                    c = (k, m.groupdict())
                    break
            if c == 0 and h in ("<num_complex::Complex<f64> as core::ops::arith::Neg>::neg",):
                c = ("n", None)
            self.hcache[("c", h)] = c
        if c == 0:
            return NotImplemented
        k, g = c
        a = list(a)
        if any(x is UNDEF for x in a):
            return NotImplemented

        def take(tyname, ref):
            if ref:
                p = a.pop(0)
                return self.cload(p) if tyname.startswith("num") else self.load_scalar(p, _F64)
            if tyname.startswith("num"):
                x = a.pop(0)
                if isinstance(x, Ptr):
                    return self.cload(x)
                return t_.mkc(x, a.pop(0))
            return a.pop(0)

        if k == "b":
            x = take(g["a"], g["ref"])
            y = take(g["b"] or "num", g["rb"])
            return self.cret(self.BOP[g["tr"]](x, y))
        if k == "a":
            p = a.pop(0)
            x = self.cload(p)
            y = take(g["b"] or "num", g["rb"])
            w = self.BOP[g["tr"]](x, y)
            self.store_scalar(p, t_.re(w), 8)
            self.store_scalar(Ptr(p.o, p.off + 8), t_.im(w), 8)
            return None
        if k == "n":
            return self.cret(t_.neg(take("num", False)))
        x = take("num", False)
        f = g["f"]
        if f == "ln":
            # a real argument sits on the cut when negative (principal value, +0)
            if t_.isreal(x) and self.lt(x, t_.ZERO):
                return self.cret(t_.add(t_.ln(t_.neg(x)), t_.mul(t_.I, t_.PI)))
            return self.cret(t_.ln(x))
        if f == "exp":
            return self.cret(t_.exp(x))
        if f == "sqrt":
            if t_.isreal(x) and self.lt(x, t_.ZERO):
                return self.cret(t_.mul(t_.I, t_.sqrt(t_.neg(x))))
            return self.cret(t_.sqrt(x))
        if f in ("inv", "recip", "finv"):
            return self.cret(t_.div(t_.ONE, x))
        if f == "conj":
            return self.cret(t_.conj(x))
        if f == "norm_sqr":
            return t_.re(t_.mul(x, t_.conj(x)))
        if f in ("norm", "abs"):
            return t_.sqrt(t_.re(t_.mul(x, t_.conj(x))))
        if f == "arg":
            return t_.im(t_.ln(x))
        if f in ("powi", "powu"):
            n = a.pop(0)
            if isinstance(n, int):
                if f == "powi" and n >> 31:
                    n -= 1 << 32
                return self.cret(t_.powi(x, n))
        if f == "sin":
            e = t_.exp(t_.mul(t_.I, x))
            return self.cret(t_.div(t_.sub(e, t_.div(t_.ONE, e)), t_.mul(t_.TWO, t_.I)))
        if f == "cos":
            e = t_.exp(t_.mul(t_.I, x))
            return self.cret(t_.div(t_.add(e, t_.div(t_.ONE, e)), t_.TWO))
        return NotImplemented


INTVARS = set()


class _F64c:
    k, size, n = "f64", 8, 64


class _I8c:
    k, size, n = "int", 1, 8


class _I64c:
    k, size, n = "int", 8, 64


_F64, _I8, _I64 = _F64c(), _I8c(), _I64c()


def ivar(name):
    v = t_.var(name)
    INTVARS.add(v.id)
    return v


def harness_call(ex, fname, rin, nin, nout=96, max_paths=256):
    """run h_xxx(a, n, out) symbolically; rin: terms, nin: ints or int terms.
    -> list of (conds, ('ret', [terms]) | ('panic', msg))"""

    return [(c, r[0]) for c, r in seq_call(ex, [(fname, rin, nin)], nout, max_paths)]


def seq_call(ex, calls, nout=96, max_paths=256):
    """several harness calls one after another on the same machine state; the
    result of each path is the list of outputs of every call"""

    def one(e, fname, rin, nin):
        a = e.alloc("a", max(8, 8 * len(rin)))
        for i, x in enumerate(rin):
            a.o.cells[8 * i] = (8, x)
        n = e.alloc("n", max(4, 4 * len(nin)))
        for i, x in enumerate(nin):
            n.o.cells[4 * i] = (4, x)
        out = e.alloc("out", 8 * nout)
        e.call(fname, [a, n, out])
        res = []
        for i in range(nout):
            c = out.o.cells.get(8 * i)
            if c is None:
                break
            res.append(c[1] if isinstance(c[1], T) else t_.lift(struct.unpack("<d", c[1].to_bytes(8, "little"))[0]) if isinstance(c[1], int) else c[1].t if isinstance(c[1], Bits) else c[1])
        return res

    def go(e):
        r = []
        for c in calls:
            try:
                r.append(("ret", one(e, *c)))
            except Panic as p:
                r.append(("panic", p.what))
                break
        return r

    return ex.run_paths(go, max_paths, calls[-1][0])
