
#[allow(clippy::all, dead_code, unused)]
mod vharness_tail {
    unsafe fn pairs(a: *const f64, n: usize) -> Vec<(f64, f64)> {
        let mut v = Vec::new();
        for i in 0..n {
            v.push((*a.add(2 * i), *a.add(2 * i + 1)));
        }
        v
    }

    // a = mu, t, boundary points
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_deconfined(a: *const f64, n: *const u32, out: *mut f64) {
        let pb = pairs(a.add(2), *n as usize / 2);
        *out = if super::is_deconfined_phase(*a, *a.add(1), &pb) { 1. } else { 0. };
    }

    // a = temperatures, values
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_critical(a: *const f64, n: *const u32, out: *mut f64) {
        let k = *n as usize;
        let ts = std::slice::from_raw_parts(a, k);
        let ds = std::slice::from_raw_parts(a.add(k), *n.add(1) as usize);
        *out = super::find_critical_temperature(ts, ds);
    }

    // the reduced boundary's length and its points
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_reduce(a: *const f64, n: *const u32, out: *mut f64) {
        let pb = pairs(a, *n as usize / 2);
        let r = super::reduce_phase_boundary(&pb);
        *out = r.len() as f64;
        for i in 0..r.len() {
            *out.add(1 + 2 * i) = r[i].0;
            *out.add(2 + 2 * i) = r[i].1;
        }
    }

    // reduction applied twice
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_reduce2(a: *const f64, n: *const u32, out: *mut f64) {
        let pb = pairs(a, *n as usize / 2);
        let r = super::reduce_phase_boundary(super::reduce_phase_boundary(&pb));
        *out = r.len() as f64;
        for i in 0..r.len() {
            *out.add(1 + 2 * i) = r[i].0;
            *out.add(2 + 2 * i) = r[i].1;
        }
    }

    // BEGIN private
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_poly(a: *const f64, n: *const u32, out: *mut f64) {
        let p = std::slice::from_raw_parts(a.add(1), *n as usize);
        *out = super::parametric_phase_diagram(*a, p);
    }

    // the polynomial the fit minimises: value and derivative with respect to
    // the parameter whose derivative part is one
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_poly_ad(a: *const f64, n: *const u32, out: *mut f64) {
        use peroxide::fuga::AD;
        let k = *n as usize;
        let mut p = Vec::new();
        for i in 0..k {
            p.push(AD::AD1(*a.add(1 + 2 * i), *a.add(2 + 2 * i)));
        }
        match super::parametric_phase_diagram(AD::AD1(*a, 0.), &p) {
            AD::AD1(x, d) => {
                *out = x;
                *out.add(1) = d;
            }
            AD::AD0(x) => {
                *out = x;
                *out.add(1) = 0.;
            }
            AD::AD2(x, d, _) => {
                *out = x;
                *out.add(1) = d;
            }
        }
    }
    // END private
}
