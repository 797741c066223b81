"""Rebuild the harness and the code under check from /repo's working tree and
load the resulting LLVM IR."""
import ctypes
import fcntl
import glob
import json
import os
import shutil
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
REPO = os.environ.get("VERIF_REPO", "/repo")


class BuildError(Exception):
    pass


def _drop_fingerprints(target, pats):
    for p in pats:
        for d in glob.glob(os.path.join(target, "debug", ".fingerprint", p)):
            shutil.rmtree(d, ignore_errors=True)
        for d in glob.glob(os.path.join(target, "debug", "deps", p.replace("*", "*.ll"))):
            os.unlink(d)


def cargo(crate, pats, extra_env=None, sub="target"):
    """build one harness crate; the crates under check are always recompiled"""
    os.makedirs(BUILD, exist_ok=True)
    target = os.path.join(BUILD, sub)
    env = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(RUSTUP_TOOLCHAIN="stable", RUSTC_WRAPPER=os.path.join(ROOT, "tools", "rustc-ir"), CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0")
    env.update(extra_env or {})
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _drop_fingerprints(target, pats)
        r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=crate, env=env, capture_output=True, text=True)
        if r.returncode != 0 and "lock file" in r.stderr:
            r = subprocess.run(["cargo", "build", "--offline"], cwd=crate, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        k = max(0, ("\n" + r.stderr).find("\nerror"))
        raise BuildError(r.stderr[k : k + 4000])
    return os.path.join(target, "debug", "deps"), os.path.join(target, "debug")


def build_main():
    deps, out = cargo(os.path.join(ROOT, "harness"), ["qcd-sme-*", "qcd_sme*", "vharness*"])
    return deps, os.path.join(out, "libvharness.so")


def _tc_crate(name, src, tail, drop=(), edit=None):
    """a crate made of one source file of tc_long_prop plus harness entry
    points that can see its private items"""
    import tomllib

    ws = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb")).get("workspace", {}).get("dependencies", {})
    own = tomllib.load(open(os.path.join(REPO, "tc_long_prop", "Cargo.toml"), "rb"))["dependencies"]
    deps = []
    for k, v in own.items():
        if isinstance(v, dict) and v.get("workspace"):
            w = ws[k]
            w = {"version": w} if isinstance(w, str) else dict(w)
            w.setdefault("features", [])
            w["features"] = w["features"] + v.get("features", [])
            v = w
        if isinstance(v, dict) and "path" in v:
            continue
        if isinstance(v, str):
            v = {"version": v}
        deps.append("%s = { %s }" % (k, ", ".join("%s = %s" % (a, json.dumps(b)) for a, b in v.items())))
    d = os.path.join(BUILD, "tc", name)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    t = open(os.path.join(ROOT, "harness_tc", "Cargo.toml.in")).read()
    open(os.path.join(d, "Cargo.toml"), "w").write(t.replace("@NAME@", name).replace("@REPO@", REPO).replace("@DEPS@", "\n".join(deps)))
    lock = os.path.join(ROOT, "harness_tc", name + ".lock")
    if os.path.exists(lock):
        shutil.copy(lock, os.path.join(d, "Cargo.lock"))
    body = open(os.path.join(ROOT, "harness_tc", tail)).read()
    for m in drop:
        i = body.index("// BEGIN " + m)
        j = body.index("// END " + m)
        body = body[:i] + body[j:]
    text = open(os.path.join(REPO, "tc_long_prop", "src", src)).read()
    open(os.path.join(d, "src", "lib.rs"), "w").write((edit(text) if edit else text) + body)
    return d


def build_tc(name, src, tail, private=(), edit=None):
    """-> (Program, shared library, api, whether private items were reachable)"""
    import llir

    pats = ["qcd-sme-*", "qcd_sme*", "tc_long_prop*", name + "-*", name + "."]
    ok = True
    try:
        deps, out = cargo(_tc_crate(name, src, tail, (), edit), pats, sub="target_tc")
    except BuildError:
        if not private:
            raise
        ok = False
        deps, out = cargo(_tc_crate(name, src, tail, private, edit), pats, sub="target_tc")
    one = lambda p: sorted(glob.glob(os.path.join(deps, p)), key=os.path.getmtime)[-1:]
    main = one("qcd_sme*.ll") + (one(name + ".ll") or one(name + "-*.ll")) + one("tc_long_prop*.ll")
    extra = []
    for p in ("num_complex*.ll", "num_traits*.ll", "peroxide-*.ll", "puruspe*.ll", "log-*.ll"):
        extra += one(p)
    prog = llir.Program(main, extra)
    api = {e["id"]: e for e in json.load(open(os.path.join(ROOT, "harness_tc", "api.json")))}
    return prog, os.path.join(out, "lib%s.so" % name), api, ok


def load_main(deps):
    import llir

    def one(p):
        g = glob.glob(os.path.join(deps, p))
        return sorted(g, key=os.path.getmtime)[-1:]

    extra = []
    for p in ("num_complex*.ll", "num_traits*.ll", "peroxide-*.ll", "puruspe*.ll"):
        extra += one(p)
    main = one("qcd_sme*.ll") + one("vharness*.ll")
    if len(main) != 2:
        raise BuildError("LLVM IR missing")
    return llir.Program(main, extra)


def api():
    d = {}
    for f in ("api.json", "api_extra.json"):
        p = os.path.join(ROOT, "harness", f)
        if os.path.exists(p):
            for e in json.load(open(p)):
                d[e["id"]] = e
    return d
