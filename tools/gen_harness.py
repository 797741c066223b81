#!/usr/bin/env python3
"""Development-time generator of harness/src/gen.rs and harness/api.json.

Run by hand when the public API surface grows; its output is committed.  It
reads the signatures of the public functions and exported C symbols of qcd-sme
and writes one uniform-ABI wrapper per (function, instantiation):

    extern "C" fn h_<id>(a: *const f64, n: *const u32, out: *mut f64)
"""
import json, re, sys, os
REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
SRC = os.path.join(REPO, "qcd-sme/src")
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")

def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", "", s, flags=re.S)
    return re.sub(r"//[^\n]*", "", s)

def items(path, modpath):
    s = strip_comments(open(path).read())
    stack = []  # (name or None)
    i = 0
    res = []
    tok = re.compile(r"(?:pub(?:\(crate\))?\s+)?mod\s+(\w+)\s*\{|((?:#\[no_mangle\]\s*)?)pub\s+(extern\s+\"C\"\s+)?fn\s+(\w+)|\{|\}")
    while True:
        m = tok.search(s, i)
        if not m: break
        if m.group(1):
            stack.append(m.group(1)); i = m.end(); continue
        if m.group(4):
            name = m.group(4)
            j = m.end()
            gen = ""
            if s[j] == "<":
                d = 0; k = j
                while True:
                    if s[k] == "<": d += 1
                    if s[k] == ">" and s[k-1] not in "-=": d -= 1
                    k += 1
                    if d == 0: break
                gen = s[j+1:k-1]; j = k
            assert s[j] == "(", (name, s[j:j+30])
            d = 0; k = j
            while True:
                if s[k] == "(": d += 1
                if s[k] == ")": d -= 1
                k += 1
                if d == 0: break
            args = s[j+1:k-1]
            b = s.index("{", k)
            ret = s[k:b].strip()
            ret = ret[2:].strip() if ret.startswith("->") else ""
            res.append((list(modpath) + [x for x in stack if x], bool(m.group(3)), name, gen, args, ret))
            i = b; continue
        if m.group(0) == "{": stack.append(None)
        else:
            if stack: stack.pop()
        i = m.end()
    return res

def split_top(s):
    out = []; d = 0; cur = ""
    for ch in s:
        if ch in "<([": d += 1
        if ch in ">)]": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): out.append(cur)
    return [" ".join(x.split()) for x in out if x.strip()]

allitems = []
for root, _, fs in os.walk(SRC):
    for f in sorted(fs):
        if not f.endswith(".rs"): continue
        p = os.path.join(root, f)
        rel = os.path.relpath(p, SRC)[:-3].split("/")
        if rel[-1] in ("mod", "lib"): rel = rel[:-1]
        allitems += items(p, rel)
allitems.sort(key=lambda t: ("::".join(t[0]), t[2]))

api = []
code = []
skipped = []

def emit(hid, call, args, ret, meta):
    lines = []
    lines.append("#[no_mangle]\npub unsafe extern \"C\" fn %s(a: *const f64, n: *const u32, out: *mut f64) {" % hid)
    lines.append("    let mut r = Rd::new(a, n);")
    names = []
    for i, (nm, ty) in enumerate(args):
        fn = {"R": "r", "C": "c", "U": "u", "M": "m", "F": "cfg"}[ty]
        lines.append("    let x%d = r.%s();" % (i, fn))
        names.append(("&x%d" if ty == "F" else "x%d") % i)
    lines.append("    let res = %s(%s);" % (call, ", ".join(names)))
    if ret == "()": lines.append("    let _ = (res, out);")
    else: lines.append("    put_%s(out, res);" % ret.lower())
    lines.append("}")
    code.append("\n".join(lines))
    api.append(dict(id=hid, call=call, args=[list(x) for x in args], ret=ret, **meta))

def ty_of(t, env):
    t = t.strip()
    if t in env: return env[t]
    t = t.replace("crate::", "")
    return {"R": "R", "C": "C", "f64": "R", "u32": "U", "NCTYPE": "U", "NFTYPE": "U", "Integral": "M",
            "&FieldConfig": "F", "": "()"}.get(t)

seen = set()
for mod, ext, name, gen, args, ret in allitems:
    if "tests" in mod or "inlines" in mod: continue
    al = []
    for a in split_top(args):
        if ":" not in a: al = None; break
        nm, ty = a.split(":", 1)
        al.append((nm.replace("mut ", "").strip(), ty.strip()))
    if al is None: skipped.append((mod, name)); continue
    if ext:
        tl = [(n, ty_of(t, {})) for n, t in al]
        rt = ty_of(ret, {})
        if any(t is None for _, t in tl) or rt is None: skipped.append((mod, name)); continue
        mods = [m for m in mod if m not in ("native", "ffi")]
        base = "consts" if mods[0] == "consts" else "ffi"
        emit("h_x_" + name, "qcd_sme::%s::%s" % (base, name), tl, rt, dict(kind="ffi", sym=name, mod="::".join(mods), inst=""))
        continue
    if "ffi" in mod: skipped.append((mod, name)); continue
    mods = [m for m in mod if m != "native"]
    if mods[0] in ("utils", "types") or (mods[:2] == ["qcd", "types"]): skipped.append((mod, name)); continue
    if mods[0] == "consts" and name == "get_default_integration_method": continue
    gens = [g.split(":")[0].strip() for g in split_top(gen)]
    insts = [("R" * len(gens))] if gens else [""]
    if gens:
        insts.append("C" * len(gens))
        if len(gens) > 1: insts.append("C" + "R" * (len(gens) - 1))
    for inst in insts:
        env = dict(zip(gens, inst))
        tl = [(n, ty_of(t, env)) for n, t in al]
        rt = ty_of(ret, env)
        if any(t is None for _, t in tl) or rt is None:
            skipped.append((mod, name)); break
        hid = "h_" + "__".join(mods) + "__" + name + ("_" + inst if inst else "")
        if hid in seen: continue
        seen.add(hid)
        emit(hid, "qcd_sme::%s::%s" % ("::".join(mods), name), tl, rt, dict(kind="native", sym=name, mod="::".join(mods), inst=inst))

hdr = "// Generated by tools/gen_harness.py; do not edit.\nuse crate::rt::*;\n\n"
open(os.path.join(OUT, "src/gen.rs"), "w").write(hdr + "\n\n".join(code) + "\n")
json.dump(api, open(os.path.join(OUT, "api.json"), "w"), indent=0)
print(len(api), "wrappers;", "skipped:", [("::".join(m), n) for m, n in skipped])
