"""Lazy parser for the textual LLVM IR emitted by rustc (opt-level 0, no passes).

Functions are indexed when a module is loaded and parsed into tuples the first
time they are executed.
"""
import glob
import os
import re
import struct

# ---------------------------------------------------------------- types


class Ty:
    __slots__ = ("k", "n", "sub", "size", "align", "offs")

    def __init__(self, k, n=0, sub=None, size=0, align=1, offs=None):
        self.k, self.n, self.sub, self.size, self.align, self.offs = k, n, sub, size, align, offs

    def __repr__(self):
        return "Ty(%s,%s,%s)" % (self.k, self.n, self.sub)


def _int(n):
    b = (n + 7) // 8
    sz = 1
    while sz < b:
        sz *= 2
    return Ty("int", n, None, sz, min(sz, 16))


PTR = Ty("ptr", 64, None, 8, 8)
F64 = Ty("f64", 64, None, 8, 8)
F32 = Ty("f32", 32, None, 4, 4)
VOID = Ty("void")
TOK = re.compile(
    r"""\s*(?:(?P<str>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")|(?P<gl>@(?:"[^"]*"|[\w.$-]+))|(?P<loc>%(?:"[^"]*"|[\w.$-]+))"""
    r"""|(?P<md>!(?:"[^"]*"|[\w.$-]*))|(?P<at>\#\d+)|(?P<num>[+-]?(?:inf|[qs]?nan(?:\(0x[0-9a-fA-F]+\))?|f?0x[0-9A-Fa-f]+|\d+\.\d+(?:e[+-]?\d+)?|\d+)(?![\w]))|(?P<id>[A-Za-z_][\w.]*)|(?P<p><\{|\}>|[{}\[\]()<>,=*:|]|\.\.\.))"""
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise SyntaxError("tokenize: " + s[i : i + 60])
        k = m.lastgroup
        out.append((k, m.group(k)))
        i = m.end()
    return out


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t, self.i, self.mod = toks, 0, mod

    def peek(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        r = self.next()
        if r[1] != v:
            raise SyntaxError("expected %s got %s in %s" % (v, r, " ".join(str(x[1]) for x in self.t)[:300]))

    def type(self):
        k, v = self.next()
        if k == "id":
            if v == "ptr":
                return PTR
            if v == "double":
                return F64
            if v == "float":
                return F32
            if v == "void":
                return VOID
            if v[0] == "i" and v[1:].isdigit():
                return _int(int(v[1:]))
            if v in ("metadata", "label", "opaque"):
                return Ty(v)
            raise SyntaxError("type " + v)
        if v == "{" or v == "<{":
            close = "}" if v == "{" else "}>"
            sub = []
            if not self.accept(close):
                while True:
                    sub.append(self.type())
                    if self.accept(close):
                        break
                    self.expect(",")
            return mkstruct(sub, packed=(v == "<{"))
        if v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            return Ty("arr", n, e, n * e.size, e.align)
        if v == "<":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect(">")
            return Ty("vec", n, e, n * e.size, n * e.size)
        if k == "loc":
            return self.mod.named_type(v)
        raise SyntaxError("type %s" % v)

    ATTRS = {
        "noundef", "nonnull", "noalias", "zeroext", "signext", "inreg", "nocapture", "readonly", "readnone", "writeonly",
        "immarg", "allocptr", "allocalign", "returned", "noext", "nofree", "dead_on_unwind", "writable", "nofpclass",
    }
    PARENATTRS = {"align", "dereferenceable", "dereferenceable_or_null", "captures", "range", "sret", "byval", "nofpclass", "initializes", "elementtype"}

    def attrs(self):
        res = {}
        while True:
            k, v = self.peek()
            if k == "id" and v in self.PARENATTRS:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                    continue
                if self.peek()[1] == "(":
                    self.next()
                    if v in ("sret", "byval"):
                        res[v] = self.type()
                        self.expect(")")
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            d += (x == "(") - (x == ")")
            elif k == "id" and v in self.ATTRS:
                self.next()
            else:
                return res

    def const(self, ty):
        """Parse a constant / operand of the given type -> operand tuple."""
        k, v = self.next()
        if k == "loc":
            return ("l", v[1:].strip('"'))
        if k == "gl":
            return ("g", v[1:].strip('"'))
        if k == "num":
            if ty.k == "f64":
                return ("c", parse_double(v))
            if ty.k == "f32":
                return ("c", parse_double(v))
            if ty.k == "int":
                return ("c", int(v) & ((1 << ty.n) - 1))
            raise SyntaxError("num for %s" % ty)
        if k == "id":
            if v == "true":
                return ("c", 1)
            if v == "false":
                return ("c", 0)
            if v == "null":
                return ("c", 0)
            if v in ("undef", "poison"):
                return ("u", ty)
            if v == "zeroinitializer":
                return ("z", ty)
            if v == "getelementptr":
                while self.peek()[0] == "id" and self.peek()[1] in ("inbounds", "nuw", "nusw"):
                    self.next()
                self.expect("(")
                bt = self.type()
                self.expect(",")
                self.type()
                base = self.const(PTR)
                idx = []
                while self.accept(","):
                    it = self.type()
                    idx.append((it, self.const(it)))
                self.expect(")")
                return ("gep", bt, base, idx)
            if v in ("inttoptr", "ptrtoint", "bitcast"):
                self.expect("(")
                t = self.type()
                c = self.const(t)
                self.expect("to")
                self.type()
                self.expect(")")
                return c
            raise SyntaxError("const " + v)
        if k == "str":
            return ("s", unescape(v))
        if v in ("{", "<{", "["):
            close = {"{": "}", "<{": "}>", "[": "]"}[v]
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.const(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("a", el)
        raise SyntaxError("const %s %s" % (k, v))


def unescape(v):
    b = bytearray()
    i = 2
    while i < len(v) - 1:
        if v[i] == "\\":
            if v[i + 1] == "\\":
                b.append(92)
                i += 2
            else:
                b.append(int(v[i + 1 : i + 3], 16))
                i += 3
        else:
            b.append(ord(v[i]))
            i += 1
    return bytes(b)


def parse_double(v):
    if "inf" in v or "nan" in v:
        return float("nan") if "nan" in v else (float("-inf") if v[0] == "-" else float("inf"))
    if "0x" in v:
        return struct.unpack(">d", bytes.fromhex(v.split("0x")[1].rjust(16, "0")))[0]
    return float(v)


def mkstruct(sub, packed=False):
    off = 0
    al = 1
    offs = []
    for t in sub:
        if not packed:
            off = (off + t.align - 1) // t.align * t.align
            al = max(al, t.align)
        offs.append(off)
        off += t.size
    size = off if packed else (off + al - 1) // al * al
    return Ty("struct", len(sub), sub, size, al, offs)


class Fn:
    __slots__ = ("name", "params", "ret", "blocks", "entry", "human", "varargs")


class Module:
    def __init__(self, path):
        self.path = path
        txt = open(path, encoding="utf-8", errors="replace").read()
        self.txt = txt
        self.types = {}
        self._typetxt = {}
        self.fnpos = {}
        self.globtxt = {}
        self.human = {}
        for m in re.finditer(r'^(%(?:"[^"]*"|[\w.$-]+)) = type (.*)$', txt, re.M):
            self._typetxt[m.group(1)] = m.group(2)
        for m in re.finditer(r'^@("[^"]*"|[\w.$-]+) = (.*)$', txt, re.M):
            self.globtxt[m.group(1).strip('"')] = m.group(2)
        for m in re.finditer(r'^(?:; (?P<h>[^\n]*)\n)?(?:; Function Attrs:[^\n]*\n)?define [^\n]*?@(?P<n>"[^"]*"|[\w.$-]+)\(', txt, re.M):
            n = m.group("n").strip('"')
            self.fnpos[n] = txt.index("define", m.start("n") - (m.start("n") - m.start()) if not m.group("h") else m.end("h"))
            if m.group("h") and not m.group("h").startswith("Function Attrs"):
                self.human[n] = m.group("h")
        for m in re.finditer(r'^\s*; call ([^\n]*)\n[^\n]*call [^\n]*?@("[^"]*"|[\w.$-]+)\(', txt, re.M):
            n = m.group(2).strip('"')
            self.human.setdefault(n, m.group(1))
        self.fns = {}

    def named_type(self, v):
        t = self.types.get(v)
        if t is None:
            t = P(tokenize(self._typetxt[v]), self).type()
            self.types[v] = t
        return t

    def function(self, name):
        f = self.fns.get(name)
        if f is None:
            f = self._parse_fn(name)
            self.fns[name] = f
        return f

    def _parse_fn(self, name):
        pos = self.fnpos[name]
        end = self.txt.index("\n}", pos)
        body = self.txt[pos:end].split("\n")
        hdr = body[0]
        p = P(tokenize(hdr.rstrip("{ ")), self)
        p.expect("define")
        f = Fn()
        f.name = name
        f.human = self.human.get(name, name)
        while True:
            k, v = p.peek()
            if k == "id" and v in ("internal", "private", "dso_local", "hidden", "weak", "linkonce_odr", "fastcc", "protected", "noundef", "zeroext", "signext", "available_externally", "external", "unnamed_addr", "coldcc", "weak_odr", "noalias", "nonnull"):
                p.next()
            elif k == "id" and v in P.PARENATTRS:
                p.attrs()
            else:
                break
        f.ret = p.type()
        p.next()
        p.expect("(")
        f.params = []
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    break
                t = p.type()
                at = p.attrs()
                k, v = p.peek()
                nm = None
                if k == "loc":
                    nm = v[1:].strip('"')
                    p.next()
                if nm is None:
                    nm = str(len(f.params))
                f.params.append((t, nm, at))
                if p.accept(")"):
                    break
                p.expect(",")
        f.blocks = {}
        cur = None
        f.entry = None
        i = 1
        while i < len(body):
            ln = body[i]
            i += 1
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[\w.$-]+):', ln)
            if m:
                nm = m.group(1).strip('"')
                cur = []
                f.blocks[nm] = cur
                if f.entry is None:
                    f.entry = nm
                continue
            if cur is None:
                cur = []
                f.entry = "0"
                f.blocks["0"] = cur
            s = ln.strip()
            if s.startswith("switch") and s.endswith("["):
                while True:
                    s += " " + body[i].strip()
                    i += 1
                    if s.endswith("]"):
                        break
                    if re.search(r"\](, !|$)", s):
                        break
            if s.startswith(("cleanup", "catch", "filter")):
                continue
            cur.append(self.parse_inst(s))
        return f

    def parse_inst(self, s):
        if " !" in s:
            s = re.sub(r",? ![\w.]+ ![\w.]+|, !dbg ![\w.]+|,? !\w+ !\{[^}]*\}", "", s)
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == "loc" and p.peek(1)[1] == "=":
            dst = p.next()[1][1:].strip('"')
            p.next()
        op = p.next()[1]
        if op in ("tail", "notail", "musttail"):
            op = p.next()[1]
        FLAGS = ("nuw", "nsw", "exact", "inbounds", "nusw", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "samesign", "nneg", "volatile", "atomic")

        def flags():
            fl = set()
            while p.peek()[0] == "id" and p.peek()[1] in FLAGS:
                fl.add(p.next()[1])
            return fl

        if op in ("fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            flags()
            t = p.type()
            a = p.const(t)
            p.expect(",")
            b = p.const(t)
            return (op, dst, t, a, b)
        if op == "fneg":
            flags()
            t = p.type()
            return (op, dst, t, p.const(t))
        if op in ("icmp", "fcmp"):
            flags()
            pred = p.next()[1]
            t = p.type()
            a = p.const(t)
            p.expect(",")
            b = p.const(t)
            return (op, dst, t, pred, a, b)
        if op in ("trunc", "zext", "sext", "uitofp", "sitofp", "fptoui", "fptosi", "ptrtoint", "inttoptr", "bitcast", "fpext", "fptrunc"):
            flags()
            t = p.type()
            a = p.const(t)
            p.expect("to")
            return (op, dst, t, a, p.type())
        if op == "select":
            flags()
            t0 = p.type()
            c = p.const(t0)
            p.expect(",")
            t = p.type()
            a = p.const(t)
            p.expect(",")
            p.type()
            b = p.const(t)
            return (op, dst, t, c, a, b)
        if op == "alloca":
            t = p.type()
            return (op, dst, t)
        if op == "load":
            flags()
            t = p.type()
            p.expect(",")
            p.type()
            return (op, dst, t, p.const(PTR))
        if op == "store":
            flags()
            t = p.type()
            a = p.const(t)
            p.expect(",")
            p.type()
            return (op, None, t, a, p.const(PTR))
        if op == "getelementptr":
            flags()
            t = p.type()
            p.expect(",")
            p.type()
            b = p.const(PTR)
            idx = []
            while p.accept(","):
                it = p.type()
                idx.append((it, p.const(it)))
            return (op, dst, t, b, idx)
        if op == "extractvalue":
            t = p.type()
            a = p.const(t)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return (op, dst, t, a, idx)
        if op == "insertvalue":
            t = p.type()
            a = p.const(t)
            p.expect(",")
            t2 = p.type()
            b = p.const(t2)
            idx = []
            while p.accept(","):
                idx.append(int(p.next()[1]))
            return (op, dst, t, a, t2, b, idx)
        if op == "br":
            if p.peek()[1] == "label":
                p.next()
                return ("jmp", None, p.next()[1][1:].strip('"'))
            p.type()
            c = p.const(_int(1))
            p.expect(",")
            p.expect("label")
            a = p.next()[1][1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1][1:].strip('"')
            return ("br", None, c, a, b)
        if op == "switch":
            t = p.type()
            v = p.const(t)
            p.expect(",")
            p.expect("label")
            d = p.next()[1][1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                c = p.const(ct)
                p.expect(",")
                p.expect("label")
                cases.append((c[1], p.next()[1][1:].strip('"')))
            return ("switch", None, t, v, d, cases)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return ("ret", None, t, None)
            return ("ret", None, t, p.const(t))
        if op == "unreachable":
            return ("unreachable", None)
        if op in ("call", "invoke"):
            while True:
                k, v = p.peek()
                if k == "id" and v in FLAGS + ("fastcc", "coldcc", "ccc"):
                    p.next()
                else:
                    q = p.i
                    p.attrs()
                    if p.i == q:
                        break
            rt = p.type()
            if p.peek()[1] == "(" and p.peek()[0] == "p":  # function type in varargs calls
                d = 0
                while True:
                    x = p.next()[1]
                    d += (x == "(") - (x == ")")
                    if d == 0:
                        break
            callee = p.const(PTR)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    t = p.type()
                    p.attrs()
                    if t.k == "metadata":
                        while p.peek()[1] not in (",", ")"):
                            p.next()
                        args.append((t, ("u", t)))
                    else:
                        args.append((t, p.const(t)))
                    if p.accept(")"):
                        break
                    p.expect(",")
            norm = None
            if op == "invoke":
                while p.peek()[1] != "to":
                    p.next()
                p.next()
                p.expect("label")
                norm = p.next()[1][1:].strip('"')
            return ("call", dst, rt, callee, args, norm)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.const(t)
                p.expect(",")
                inc.append((p.next()[1][1:].strip('"'), v))
                p.expect("]")
                if not p.accept(","):
                    break
            return ("phi", dst, t, inc)
        if op in ("landingpad", "resume", "fence"):
            return ("unsupported", dst, op)
        if op == "freeze":
            t = p.type()
            return ("freeze", dst, t, p.const(t))
        return ("unsupported", dst, s)


class Program:
    """Modules are searched in order; `extra` modules (library crates) are only
    read when a function or global is not found in the primary ones."""

    def __init__(self, paths, extra=()):
        self.mods = []
        self.extra = list(extra)
        self.where = {}
        self.gwhere = {}
        self.human = {}
        self.loaded, self.tried = set(), set()
        self.libdir = os.path.dirname(paths[0]) if paths else None
        for p in paths:
            self._add(p)

    def _add(self, path):
        self.loaded.add(path)
        m = Module(path)
        self.mods.append(m)
        for n in m.fnpos:
            self.where.setdefault(n, m)
        for n, t in m.globtxt.items():
            old = self.gwhere.get(n)
            if old is None or (old.globtxt[n].startswith("external") and not t.startswith("external")):
                self.gwhere[n] = m
        for n, h in m.human.items():
            self.human.setdefault(n, h)

    def upstream(self, name):
        """load the modules of the crates named in a symbol"""
        if self.libdir is None:
            return
        for m in re.finditer(r"C(?:s[0-9A-Za-z]*_)?(\d+)_?(?=[A-Za-z_])", name):
            for k in range(len(m.group(1))):
                n = int(m.group(1)[k:])
                c = name[m.end() : m.end() + n]
                if 0 < n < 60 and len(c) == n and c not in self.tried and re.fullmatch(r"\w+", c):
                    self.tried.add(c)
                    for f in sorted(glob.glob(os.path.join(self.libdir, c + "-*.ll"))):
                        if f not in self.loaded:
                            self._add(f)

    def has(self, name):
        if name in self.where:
            return True
        if not name.startswith("_R") or "4core9panicking" in name or "7___rustc" in name:
            return False
        while self.extra and name not in self.where:
            self._add(self.extra.pop(0))
        if name not in self.where:
            self.upstream(name)
        return name in self.where

    def function(self, name):
        return self.where[name].function(name)

    def global_init(self, name):
        m = self.gwhere[name]
        if m.globtxt[name].startswith("external"):
            self.upstream(name)
            m = self.gwhere[name]
        t = m.globtxt[name]
        p = P(tokenize(re.split(r", (?:align|section|!|comdat)", t)[0]), m)
        while p.peek()[0] == "id" and p.peek()[1] in ("internal", "private", "unnamed_addr", "constant", "global", "external", "hidden", "local_unnamed_addr", "dso_local", "thread_local", "weak", "protected", "linkonce_odr"):
            p.next()
        ty = p.type()
        if p.i >= len(p.t):
            return ty, None
        return ty, p.const(ty)
