//! Entry points that need closures or mutated arguments (generated by tools/gen_extra.py).
use crate::rt::*;
use qcd_sme::{C, R};
use std::cell::Cell;

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__gluon__dressing_crossed_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let mut x2 = r.cfg();
    let nw = r.cfg();
    x2.nc = nw.nc;
    x2.gluon = nw.gluon;
    x2.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__gluon__dressing_crossed_inv_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__gluon__dressing_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let mut x2 = r.cfg();
    let nw = r.cfg();
    x2.nc = nw.nc;
    x2.gluon = nw.gluon;
    x2.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__gluon__dressing_inv_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::gluon::dressing_inv_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__gluon__dressing_l_inv_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let mut x5 = r.cfg();
    let nw = r.cfg();
    x5.nc = nw.nc;
    x5.gluon = nw.gluon;
    x5.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__gluon__dressing_t_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let mut x5 = r.cfg();
    let nw = r.cfg();
    x5.nc = nw.nc;
    x5.gluon = nw.gluon;
    x5.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__gluon__dressing_t_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_momentum__gluon__dressing_l_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_momentum__gluon__dressing_l_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_momentum__gluon__dressing_t_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let mut x4 = r.cfg();
    let nw = r.cfg();
    x4.nc = nw.nc;
    x4.gluon = nw.gluon;
    x4.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_mut_qcd__thermal__zero_momentum__gluon__dressing_t_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let mut x3 = r.cfg();
    let nw = r.cfg();
    x3.nc = nw.nc;
    x3.gluon = nw.gluon;
    x3.quarks = nw.quarks.clone();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_find_root_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z0 = r.r();
    let z1 = r.r();
    let tol = r.r();
    let it = r.u() as usize;
    let (v0, v1) = (r.r(), r.r());
    let k = Cell::new(0usize);
    let later = r.rest();
    let f = |z: R| -> R {
        let i = k.get();
        k.set(i + 1);
        if i < 2 {
            return if z == z0 { v0 } else { v1 };
        }
        unsafe { put_r(out.add(3 + 1 + (i - 2) * 1), z) };
        unsafe { *later.add(i - 2) }
    };
    let res = qcd_sme::utils::find_root(&f, (z0, z1), tol, it);
    *out = k.get() as f64;
    match res {
        Some((z, v)) => {
            *out.add(1) = 1.;
            put_r(out.add(2), z);
            put_r(out.add(3), v);
        }
        None => {
            for i in 1..4 {
                *out.add(i) = 0.;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn h_e_find_root_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z0 = r.c();
    let z1 = r.c();
    let tol = r.r();
    let it = r.u() as usize;
    let (v0, v1) = (r.c(), r.c());
    let k = Cell::new(0usize);
    let later = r.rest();
    let f = |z: C| -> C {
        let i = k.get();
        k.set(i + 1);
        if i < 2 {
            return if z == z0 { v0 } else { v1 };
        }
        unsafe { put_c(out.add(3 + 3 + (i - 2) * 2), z) };
        unsafe { C { re: *later.add(2 * (i - 2)), im: *later.add(2 * (i - 2) + 1) } }
    };
    let res = qcd_sme::utils::find_root(&f, (z0, z1), tol, it);
    *out = k.get() as f64;
    match res {
        Some((z, v)) => {
            *out.add(1) = 1.;
            put_c(out.add(2), z);
            put_c(out.add(4), v);
        }
        None => {
            for i in 1..6 {
                *out.add(i) = 0.;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn h_e_find_root_quad(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z0 = r.r();
    let z1 = r.r();
    let tol = r.r();
    let it = r.u() as usize;
    let (c0, c1, c2) = (r.r(), r.r(), r.r());
    let res = qcd_sme::utils::find_root(&|z: R| c0 + c1 * z + c2 * z * z, (z0, z1), tol, it);
    match res {
        Some((z, v)) => {
            *out = 1.;
            *out.add(1) = z;
            *out.add(2) = v;
        }
        None => *out = 0.,
    }
}

#[no_mangle]
pub unsafe extern "C" fn h_e_compute_residue_with_eps_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.r();
    let eps = r.r();
    let (res, p, c0, c1) = (r.r(), r.r(), r.r(), r.r());
    let f = |x: R| -> R { (c0 * (x - p) + res) / (x - p) + c1 * (x - p) };
    let v = qcd_sme::utils::compute_residue_with_eps(&f, z, eps);
    put_r(out, v);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_compute_residue_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.r();
    let (res, p, c0, c1) = (r.r(), r.r(), r.r(), r.r());
    let f = |x: R| -> R { (c0 * (x - p) + res) / (x - p) + c1 * (x - p) };
    let v = qcd_sme::utils::compute_residue(&f, z);
    put_r(out, v);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_compute_residue_with_eps_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.c();
    let eps = r.r();
    let (res, p, c0, c1) = (r.c(), r.c(), r.c(), r.c());
    let f = |x: C| -> C { (c0 * (x - p) + res) / (x - p) + c1 * (x - p) };
    let v = qcd_sme::utils::compute_residue_with_eps(&f, z, eps);
    put_c(out, v);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_compute_residue_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.c();
    let (res, p, c0, c1) = (r.c(), r.c(), r.c(), r.c());
    let f = |x: C| -> C { (c0 * (x - p) + res) / (x - p) + c1 * (x - p) };
    let v = qcd_sme::utils::compute_residue(&f, z);
    put_c(out, v);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_spectral_function_with_eps(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.c();
    let eps = r.r();
    let (v0, v1) = (r.c(), r.c());
    let f = |x: C| -> C {
        let i = if x.im > z.im { 0 } else { 1 };
        put_c(unsafe { out.add(2 + 2 * i) }, x);
        if i == 0 { v0 } else { v1 }
    };
    let v = qcd_sme::utils::spectral_function_with_eps(f, z, eps);
    put_c(out, v);
}

#[no_mangle]
pub unsafe extern "C" fn h_e_spectral_function(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let z = r.c();
    let (v0, v1) = (r.c(), r.c());
    let f = |x: C| -> C {
        let i = if x.im > z.im { 0 } else { 1 };
        put_c(unsafe { out.add(2 + 2 * i) }, x);
        if i == 0 { v0 } else { v1 }
    };
    let v = qcd_sme::utils::spectral_function(f, z);
    put_c(out, v);
}
