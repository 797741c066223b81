// Generated by tools/gen_harness.py; do not edit.
use crate::rt::*;

#[no_mangle]
pub unsafe extern "C" fn h_x_energy(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::energy(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_energy_squared(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::energy_squared(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__energy_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::energy(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__energy_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let res = qcd_sme::common::energy(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__energy_squared_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::energy_squared(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__energy_squared_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let res = qcd_sme::common::energy_squared(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_bose_distribution(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::bose_distribution(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_bose_distribution_zero_chempot(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::bose_distribution_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_distribution(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::fermi_distribution(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_distribution_double(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::fermi_distribution_double(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_distribution_double_zero_temp(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::fermi_distribution_double_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_distribution_zero_chempot(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::fermi_distribution_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_distribution_zero_temp(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::fermi_distribution_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_fermi_momentum(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::fermi_momentum(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__bose_distribution_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::bose_distribution(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__bose_distribution_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::common::thermal::bose_distribution(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__bose_distribution_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::bose_distribution(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__bose_distribution_zero_chempot_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::bose_distribution_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__bose_distribution_zero_chempot_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::bose_distribution_zero_chempot(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::common::thermal::fermi_distribution(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_double(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::common::thermal::fermi_distribution_double(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_double(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_zero_temp_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_double_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_zero_temp_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let res = qcd_sme::common::thermal::fermi_distribution_double_zero_temp(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_double_zero_temp_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_double_zero_temp(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_zero_chempot_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_zero_chempot_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_zero_chempot(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_zero_temp_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_zero_temp_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let res = qcd_sme::common::thermal::fermi_distribution_zero_temp(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_distribution_zero_temp_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_distribution_zero_temp(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_common__thermal__fermi_momentum(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::common::thermal::fermi_momentum(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_default_max_iter_integral(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_default_max_iter_integral();
    put_u(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_default_quark_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_default_quark_mass();
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_default_tol_integral(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_default_tol_integral();
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_matsubara_reg(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_matsubara_reg();
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_number_of_colors(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_number_of_colors();
    put_u(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_get_number_of_fermions(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let res = qcd_sme::consts::get_number_of_fermions();
    put_u(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_default_max_iter_integral(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.u();
    let res = qcd_sme::consts::set_default_max_iter_integral(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_default_quark_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::consts::set_default_quark_mass(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_default_tol_integral(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::consts::set_default_tol_integral(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_matsubara_reg(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::consts::set_matsubara_reg(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_number_of_colors(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.u();
    let res = qcd_sme::consts::set_number_of_colors(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_set_number_of_fermions(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.u();
    let res = qcd_sme::consts::set_number_of_fermions(x0);
    let _ = (res, out);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_statistic_distribution_exponential(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::statistic_distribution_exponential(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_statistic_distribution_exponential_zero_chempot(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::statistic_distribution_exponential_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__common__statistic_distribution_exponential_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::common::statistic_distribution_exponential(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__common__statistic_distribution_exponential_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::low_level::common::statistic_distribution_exponential(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__common__statistic_distribution_exponential_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::common::statistic_distribution_exponential(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__common__statistic_distribution_exponential_zero_chempot_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__common__statistic_distribution_exponential_zero_chempot_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::low_level::common::statistic_distribution_exponential_zero_chempot(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__ghost__g(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__ghost__g__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__ghost__g_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::ffi::oneloop__ghost__g_sep__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_xi(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__ghost__g_xi(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_xi__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__ghost__g_xi__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_xi_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__ghost__g_xi_sep(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__g_xi_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__ghost__g_xi_sep__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__ghost__dressing_inv_landau_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__ghost__dressing_inv_landau_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_landau_sep__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__ghost__dressing_inv_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__ghost__dressing_inv_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__ghost__dressing_inv_sep__complex(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__dressing_inv_landau_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__dressing_inv_landau_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::dressing_inv_landau_sep(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__dressing_inv_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__dressing_inv_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::dressing_inv_sep(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::g(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::ghost::g(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::g_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::low_level::oneloop::ghost::g_sep(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_xi_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::g_xi(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_xi_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::ghost::g_xi(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_xi_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::ghost::g_xi_sep(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__ghost__g_xi_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::ghost::g_xi_sep(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_q(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f_q(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_q__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f_q__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_q_crossed(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f_q_crossed(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_q_crossed__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f_q_crossed__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f_sep__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_xi(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f_xi(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_xi__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f_xi__complex(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_xi_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__f_xi_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__f_xi_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::ffi::oneloop__gluon__f_xi_sep__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__gluon__dressing_inv_landau_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__gluon__dressing_inv_landau_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_landau_sep__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__gluon__dressing_inv_sep(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__oneloop__gluon__dressing_inv_sep__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::ym__oneloop__gluon__dressing_inv_sep__complex(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_q_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f_q(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_q_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f_q(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_q_crossed_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f_q_crossed(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_q_crossed_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f_q_crossed(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f_sep(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_xi_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f_xi(x0);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_xi_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f_xi(x0);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_xi_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::f_xi_sep(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__f_xi_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let res = qcd_sme::low_level::oneloop::gluon::f_xi_sep(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__ym_dressing_inv_landau_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__ym_dressing_inv_landau_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_landau_sep(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__ym_dressing_inv_sep_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__gluon__ym_dressing_inv_sep_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::gluon::ym_dressing_inv_sep(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d2_j_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d2_j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__d_i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__d_j_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__d_j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__j_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_l(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_l(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_l_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_l_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_l_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_l_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_t(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_t(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_t_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_t_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_t_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_t_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__tlog_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__tlog_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__ghost__self_energy_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__ghost__self_energy_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__self_energy_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::self_energy_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__ghost__self_energy_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_matsubara__self_energy_thermal_part_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_matsubara__self_energy_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_matsubara__self_energy_thermal_part_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_matsubara::self_energy_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__ghost__self_energy_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__ghost__zero_momentum__self_energy_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::ghost::zero_momentum::self_energy_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_glue_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_glue_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_quark_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_quark_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_w_method_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_w_method_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_l_thermal_part_landau_w_method_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_glue_t_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_w_method_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_w_method_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_landau_w_method_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_w_method_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_w_method_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_l_thermal_part_zero_temp_landau_w_method_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__polarization_quark_t_thermal_part_zero_temp_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_l_thermal_part_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_l_thermal_part_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_t_thermal_part_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_glue_t_thermal_part_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_l_thermal_part_zero_temp_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_matsubara__polarization_quark_t_thermal_part_zero_temp_landau_w_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_t_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__gluon__polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_l_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_l_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_glue_t_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_glue_t_thermal_part_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_l_thermal_part_zero_temp_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_l_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_landau_w_method(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_w_method_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__gluon__zero_momentum__polarization_quark_t_thermal_part_zero_temp_landau_w_method_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau_w_method(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d2_j_m_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d2_j_m_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_0_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_0_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_same_mass_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_same_mass_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_i_same_mass_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_same_mass_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_same_mass_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_l_i_same_mass_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_m_t_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_t_0_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_t_0_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_i_m_t_0_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_i_m_t_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__d_j_m_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::d_j_m_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_l_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_l_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_l_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_0_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_0_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_0_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_0_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_same_mass_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_same_mass_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_i_same_mass_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_same_mass_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_same_mass_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_l_i_same_mass_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__i_m_m_t_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::i_m_m_t_i_same_mass(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_0_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_0_l_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_0_t_i(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__j_m_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::j_m_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_zero_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_l_zero_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_l_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_same_mass_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_same_mass_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_same_mass_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let x4 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_zero_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_t_zero_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_t_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_zero_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__tlog_zero_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::tlog_zero_mass(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_0_0_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_l_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_0_0_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog_same_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog_t(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog_t(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog_t_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_same_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog_t_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog_t_zero_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_matsubara__tlog_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_matsubara__tlog_zero_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_0_0_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_l_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_l_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_l_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_l_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_l_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_t_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_m_t_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_t_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__d_i_m_t_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::d_i_m_t_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_l_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_0_0_t_i(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_l_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_l_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_l_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_l_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_l_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_t_i_same_mass_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__i_m_m_t_i_same_mass_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_same_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_t_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_t_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.c();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_t_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_same_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_t_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_t_zero_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_matsubara__tlog_zero_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__d_i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_0_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_0_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_0_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_0_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_0_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_0_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_l_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_l_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_t_i(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_oneloop__zero_momentum__i_m_m_t_i_same_mass(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::oneloop__zero_momentum__i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_0_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_l_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_l_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_l_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_0_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_l_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__d_i_m_m_t_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::d_i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_l_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_l_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_t_i_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_0_0_t_i_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_t_i(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_l_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_l_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_l_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_l_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_t_i_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_t_i_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_0_t_i_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_0_t_i(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_l_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_l_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_RRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_CCC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.c();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_CRR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_same_mass_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_same_mass_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.c();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_low_level__oneloop__thermal__zero_momentum__i_m_m_t_i_same_mass_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::low_level::oneloop::thermal::zero_momentum::i_m_m_t_i_same_mass(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_inv(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_inv(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_inv__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_inv__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_inv_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_inv_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_inv_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__ghost__dressing_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::qcd__ghost__dressing_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_inv(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_inv(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_inv__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_inv__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_inv_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_inv_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_crossed_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_crossed_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_inv(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_inv(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_inv__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_inv__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_inv_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_inv_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_inv_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__dressing_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__dressing_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_crossed(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_crossed(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_crossed__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_crossed__complex(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_crossed_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_crossed_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_crossed_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_crossed_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_qcd__gluon__propagator_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::qcd__gluon__propagator_landau__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_inv_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_inv_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_crossed_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_crossed_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_crossed_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_inv(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_inv(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_inv_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_inv_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_inv_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_inv_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_inv_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::dressing_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__dressing_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::dressing_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::propagator(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::propagator(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_crossed(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_crossed(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_crossed_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_crossed_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_crossed_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_crossed_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_crossed_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_crossed_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_landau(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::gluon::propagator_landau(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_landau_w_field_config(x0, x1, &x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_landau_w_field_config(x0, x1, &x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__gluon__propagator_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::gluon::propagator_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_inv_zero_temp_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_zero_temp_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_zero_temp_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_l_zero_temp_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_inv_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__dressing_t_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::dressing_t_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_zero_temp_landau_w_field_config_RR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_zero_temp_landau_w_field_config_CC(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.c();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_l_zero_temp_landau_w_field_config_CR(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let x6 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_landau(x0, x1, x2, x3, x4, x5, x6);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_landau_w_field_config(x0, x1, x2, x3, x4, &x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__gluon__propagator_t_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::gluon::propagator_t_zero_temp_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__charge_density(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::thermal::quark::charge_density(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__charge_density_with_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::qcd::thermal::quark::charge_density_with_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__charge_density_zero_temp(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::qcd::thermal::quark::charge_density_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__chemical_potential(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::qcd::thermal::quark::chemical_potential(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__chemical_potential_with_method(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.m();
    let res = qcd_sme::qcd::thermal::quark::chemical_potential_with_method(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__quark__chemical_potential_zero_temp(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_inv_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_l_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_inv_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__dressing_t_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_l_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_l_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_l_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_l_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_t_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau(x0, x1, x2, x3, x4, x5);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_t_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_t_zero_temp_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_matsubara__gluon__propagator_t_zero_temp_landau_w_field_config(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_matsubara::gluon::propagator_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_inv_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_l_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_inv_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__dressing_t_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_l_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_l_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let x5 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau(x0, x1, x2, x3, x4, x5);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_landau_w_field_config(x0, x1, x2, x3, &x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_zero_temp_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_zero_temp_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_zero_temp_landau_w_field_config_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_qcd__thermal__zero_momentum__gluon__propagator_t_zero_temp_landau_w_field_config_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.cfg();
    let res = qcd_sme::qcd::thermal::zero_momentum::gluon::propagator_t_zero_temp_landau_w_field_config(x0, x1, x2, &x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_inv(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_inv(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_inv__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_inv__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_inv_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_inv_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_inv_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__dressing_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__dressing_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__propagator(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__propagator(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__propagator__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__ghost__propagator__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__propagator_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__propagator_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__ghost__propagator_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__ghost__propagator_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::dressing(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::dressing(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_inv_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::dressing_inv(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_inv_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::dressing_inv(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::dressing_inv_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::dressing_inv_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::dressing_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__dressing_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::dressing_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__propagator_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::propagator(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__propagator_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::ghost::propagator(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__propagator_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::propagator_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__ghost__propagator_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::ghost::propagator_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_inv(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_inv(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_inv__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_inv__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_inv_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_inv_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_inv_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__dressing_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__dressing_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__propagator(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__propagator(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__propagator__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ffi::ym__gluon__propagator__complex(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__propagator_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__propagator_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_x_ym__gluon__propagator_landau__complex(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ffi::ym__gluon__propagator_landau__complex(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::dressing(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::dressing(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_inv_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::dressing_inv(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_inv_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::dressing_inv(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::dressing_inv_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::dressing_inv_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::dressing_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__dressing_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::dressing_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__propagator_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::propagator(x0, x1, x2);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__propagator_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let res = qcd_sme::ym::gluon::propagator(x0, x1, x2);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__propagator_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::propagator_landau(x0, x1);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__gluon__propagator_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let res = qcd_sme::ym::gluon::propagator_landau(x0, x1);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__ghost__dressing_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::ghost::dressing_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__ghost__dressing_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::ghost::dressing_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__ghost__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::ghost::dressing_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__ghost__propagator_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::ghost::propagator_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_l_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_l_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_l_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_l_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_l_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_t_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_t_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_t_inv_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_t_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__dressing_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::dressing_t_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__propagator_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::propagator_l_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__propagator_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::propagator_l_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__propagator_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::propagator_t_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__gluon__propagator_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let x4 = r.r();
    let res = qcd_sme::ym::thermal::gluon::propagator_t_landau(x0, x1, x2, x3, x4);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__ghost__dressing_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_inv_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__ghost__dressing_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::ghost::dressing_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__ghost__propagator_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::ghost::propagator_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__dressing_l_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_inv_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__dressing_l_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_l_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__dressing_t_inv_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_inv_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__dressing_t_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::dressing_t_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__propagator_l_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_l_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_matsubara__gluon__propagator_t_landau(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_matsubara::gluon::propagator_t_landau(x0, x1, x2, x3);
    put_r(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__dressing_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__dressing_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::dressing_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__dressing_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__dressing_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::dressing_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__propagator_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__ghost__propagator_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::ghost::propagator_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_l_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_l_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_t_inv_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_t_inv_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_inv_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__dressing_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::dressing_t_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__propagator_l_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__propagator_l_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::propagator_l_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__propagator_t_landau_R(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.r();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(x0, x1, x2, x3);
    put_c(out, res);
}

#[no_mangle]
pub unsafe extern "C" fn h_ym__thermal__zero_momentum__gluon__propagator_t_landau_C(a: *const f64, n: *const u32, out: *mut f64) {
    let mut r = Rd::new(a, n);
    let x0 = r.c();
    let x1 = r.r();
    let x2 = r.r();
    let x3 = r.r();
    let res = qcd_sme::ym::thermal::zero_momentum::gluon::propagator_t_landau(x0, x1, x2, x3);
    put_c(out, res);
}
