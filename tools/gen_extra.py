"""dev-time: writes harness/src/extra.rs and harness/api_extra.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ["//! Entry points that need closures or mutated arguments (generated by tools/gen_extra.py).", "use crate::rt::*;", "use qcd_sme::{C, R};", "use std::cell::Cell;", ""]
api = []


def fn(id, args, ret, body):
    api.append({"id": id, "call": id, "args": args, "ret": ret, "kind": "extra", "sym": id, "mod": "extra", "inst": ""})
    out.append("#[no_mangle]\npub unsafe extern \"C\" fn %s(a: *const f64, n: *const u32, out: *mut f64) {\n    let mut r = Rd::new(a, n);\n%s\n}\n" % (id, body))


main = {e["id"]: e for e in (lambda l: l if isinstance(l, list) else list(l.values()))(json.load(open(ROOT + "/harness/api.json")))}
# a field configuration whose public fields are assigned after construction
for e in main.values():
    if e["kind"] != "native" or not any(t == "F" for _, t in e["args"]) or "inv" not in e["sym"]:
        continue
    if e["inst"] not in ("R", "RR", ""):
        continue
    id = e["id"].replace("h_", "h_mut_", 1)
    L, names = [], []
    args = []
    for i, (nm, ty) in enumerate(e["args"]):
        if ty == "F":
            args += [["cfg0", "F"], [nm, "F"]]
            L.append("    let mut x%d = r.cfg();\n    let nw = r.cfg();\n    x%d.nc = nw.nc;\n    x%d.gluon = nw.gluon;\n    x%d.quarks = nw.quarks.clone();" % (i, i, i, i))
            names.append("&x%d" % i)
        else:
            args.append([nm, ty])
            L.append("    let x%d = r.r();" % i)
            names.append("x%d" % i)
    L.append("    let res = qcd_sme::%s::%s(%s);" % (e["mod"], e["sym"], ", ".join(names)))
    L.append("    put_%s(out, res);" % e["ret"].lower())
    fn(id, args, e["ret"], "\n".join(L))

# find_root on an arbitrary function: its values at the two guesses and at
# the later evaluation points (in order) are supplied; the later points are
# recorded
for ty, rd, put in (("R", "r.r()", "put_r"), ("C", "r.c()", "put_c")):
    w = 1 if ty == "R" else 2
    body = """    let z0 = %s;
    let z1 = %s;
    let tol = r.r();
    let it = r.u() as usize;
    let (v0, v1) = (%s, %s);
    let k = Cell::new(0usize);
    let later = r.rest();
    let f = |z: %s| -> %s {
        let i = k.get();
        k.set(i + 1);
        if i < 2 {
            return if z == z0 { v0 } else { v1 };
        }
        unsafe { %s(out.add(3 + %d + (i - 2) * %d), z) };
        unsafe { %s }
    };
    let res = qcd_sme::utils::find_root(&f, (z0, z1), tol, it);
    *out = k.get() as f64;
    match res {
        Some((z, v)) => {
            *out.add(1) = 1.;
            %s(out.add(2), z);
            %s(out.add(%d), v);
        }
        None => {
            for i in 1..%d {
                *out.add(i) = 0.;
            }
        }
    }""" % (rd, rd, rd, rd, ty, ty, put, 2 * w - 1, w, ("*later.add(i - 2)" if ty == "R" else "C { re: *later.add(2 * (i - 2)), im: *later.add(2 * (i - 2) + 1) }"), put, put, 2 + w, 2 + 2 * w)
    fn("h_e_find_root_" + ty, [["z0", ty], ["z1", ty], ["tol", "R"], ["it", "U"], ["vals", ty + "V"]], ["*"], body)

# a root of a polynomial of degree 2 with symbolic coefficients
fn("h_e_find_root_quad", [["z0", "R"], ["z1", "R"], ["tol", "R"], ["it", "U"], ["c0", "R"], ["c1", "R"], ["c2", "R"]], ["*"], """    let z0 = r.r();
    let z1 = r.r();
    let tol = r.r();
    let it = r.u() as usize;
    let (c0, c1, c2) = (r.r(), r.r(), r.r());
    let res = qcd_sme::utils::find_root(&|z: R| c0 + c1 * z + c2 * z * z, (z0, z1), tol, it);
    match res {
        Some((z, v)) => {
            *out = 1.;
            *out.add(1) = z;
            *out.add(2) = v;
        }
        None => *out = 0.,
    }""")
for ty, rd, put in (("R", "r.r()", "put_r"), ("C", "r.c()", "put_c")):
    for eps in (True, False):
        nm = "compute_residue" + ("_with_eps" if eps else "")
        body = "    let z = %s;\n%s    let (res, p, c0, c1) = (%s, %s, %s, %s);\n" % (rd, "    let eps = r.r();\n" if eps else "", rd, rd, rd, rd)
        body += "    let f = |x: %s| -> %s { (c0 * (x - p) + res) / (x - p) + c1 * (x - p) };\n" % (ty, ty)
        body += "    let v = qcd_sme::utils::%s(&f, z%s);\n    %s(out, v);" % (nm, ", eps" if eps else "", put)
        fn("h_e_%s_%s" % (nm, ty), [["z", ty]] + ([["eps", "R"]] if eps else []) + [["res", ty], ["pole", ty], ["c0", ty], ["c1", ty]], ty, body)
for eps in (True, False):
    nm = "spectral_function" + ("_with_eps" if eps else "")
    body = "    let z = r.c();\n%s    let (v0, v1) = (r.c(), r.c());\n" % ("    let eps = r.r();\n" if eps else "")
    # arbitrary function: records both evaluation points, returns the two values
    body += "    let f = |x: C| -> C {\n        let i = if x.im > z.im { 0 } else { 1 };\n        put_c(unsafe { out.add(2 + 2 * i) }, x);\n        if i == 0 { v0 } else { v1 }\n    };\n    let v = qcd_sme::utils::%s(f, z%s);\n    put_c(out, v);" % (nm, ", eps" if eps else "")
    fn("h_e_" + nm, [["z", "C"]] + ([["eps", "R"]] if eps else []) + [["v0", "C"], ["v1", "C"]], ["C", "C", "C"], body)
open(ROOT + "/harness/src/extra.rs", "w").write("\n".join(out))
json.dump(api, open(ROOT + "/harness/api_extra.json", "w"), indent=0)
print(len(api))
