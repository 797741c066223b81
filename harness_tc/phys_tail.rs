
#[allow(clippy::all, dead_code, unused)]
mod vharness_tail {
    use super::config::Config;
    use tc_long_prop::more_masses::FieldConfig;

    struct Rd {
        a: *const f64,
        n: *const u32,
    }

    impl Rd {
        unsafe fn r(&mut self) -> f64 {
            let v = *self.a;
            self.a = self.a.add(1);
            v
        }
        unsafe fn u(&mut self) -> u32 {
            let v = *self.n;
            self.n = self.n.add(1);
            v
        }
        unsafe fn cfg(&mut self) -> FieldConfig {
            let nc = self.u();
            let k = self.u();
            let mut f = Vec::new();
            for _ in 0..k {
                f.push(self.u());
            }
            let m = self.r();
            let mut q = Vec::new();
            for i in 0..k {
                q.push((f[i as usize], self.r()));
            }
            FieldConfig::new(nc, m, q)
        }
        unsafe fn pairs(&mut self) -> Vec<(f64, f64)> {
            let k = self.u() / 2;
            let mut v = Vec::new();
            for _ in 0..k {
                let x = self.r();
                let y = self.r();
                v.push((x, y));
            }
            v
        }
    }

    // which configuration and additive constant are used at (mu, t)
    // out: index of the quark masses in use, f0
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_config_plain(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let (mu, t, f0, ren, om) = (r.r(), r.r(), r.r(), r.r(), r.r());
        let fc = r.cfg();
        let g = (0., 0., 1.);
        let c = Config::new(g, g, g, om, ren, f0, &fc, "", "", "");
        let (d, f) = c.maybe_corrected_data(mu, t);
        *out = f;
        *out.add(1) = if std::ptr::eq(d, &fc) { 1. } else { 0. };
        *out.add(2) = c.renpoint();
        *out.add(3) = c.renpoint2();
        *out.add(4) = c.om;
        *out.add(5) = c.temps().len() as f64;
    }

    #[no_mangle]
    pub unsafe extern "C" fn h_tc_config_corrected(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let (mu, t, f0, ren, om) = (r.r(), r.r(), r.r(), r.r(), r.r());
        let fc = r.cfg();
        let cfc = r.cfg();
        let pb = r.pairs();
        let g = (0., 0., 1.);
        let mut c = Config::new(g, g, g, om, ren, f0, &fc, "", "", "");
        c.set_phase_boundary(Some(&pb));
        c.set_correctedfieldconfig(Some(&cfc));
        let (d, f) = c.maybe_corrected_data(mu, t);
        *out = f;
        *out.add(1) = if std::ptr::eq(d, &fc) { 1. } else if std::ptr::eq(d, &cfc) { 2. } else { 0. };
        *out.add(2) = c.phase_boundary().unwrap().len() as f64;
    }

    // corrected data set, used, and set again: only the last values count
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_config_twice(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let order = r.u();
        let (mu, t, f0, ren, om) = (r.r(), r.r(), r.r(), r.r(), r.r());
        let fc = r.cfg();
        let old = r.cfg();
        let cfc = r.cfg();
        let opb = r.pairs();
        let pb = r.pairs();
        let g = (0., 0., 1.);
        let mut c = Config::new(g, g, g, om, ren, f0, &fc, "", "", "");
        c.set_correctedfieldconfig(Some(&old));
        c.set_phase_boundary(Some(&opb));
        if order == 1 {
            let _ = c.maybe_corrected_data(mu, t);
        }
        if order == 2 {
            c.set_correctedfieldconfig(None);
            c.set_phase_boundary(None);
        }
        if order == 3 {
            c.set_phase_boundary(Some(&pb));
        }
        c.set_correctedfieldconfig(Some(&cfc));
        if order == 4 {
            c = c.clone();
        }
        if order != 3 {
            c.set_phase_boundary(Some(&pb));
        }
        let (d, f) = c.maybe_corrected_data(mu, t);
        *out = f;
        *out.add(1) = if std::ptr::eq(d, &fc) { 1. } else if std::ptr::eq(d, &cfc) { 2. } else { 0. };
        *out.add(2) = c.phase_boundary().unwrap().len() as f64;
    }

    // corrected data set and removed again
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_config_reset(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let (mu, t, f0, ren, om) = (r.r(), r.r(), r.r(), r.r(), r.r());
        let fc = r.cfg();
        let cfc = r.cfg();
        let pb = r.pairs();
        let g = (0., 0., 1.);
        let mut c = Config::new(g, g, g, om, ren, f0, &fc, "", "", "");
        c.set_correctedfieldconfig(Some(&cfc));
        c.set_phase_boundary(Some(&pb));
        c.set_correctedfieldconfig(None);
        c.set_phase_boundary(None);
        let (d, f) = c.maybe_corrected_data(mu, t);
        *out = f;
        *out.add(1) = if std::ptr::eq(d, &fc) { 1. } else if std::ptr::eq(d, &cfc) { 2. } else { 0. };
    }

    // the grids of temperatures, chemical potentials and momenta
    // which = 0, 1, 2: grids given to new; 3, 4: grids set later
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_grid(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let which = r.u();
        let g = (r.r(), r.r(), r.r());
        let o = (r.r(), r.r(), r.r());
        let fc = FieldConfig::new(3, 1., vec![]);
        let k = |i: u32| if which == i { g } else { o };
        let mut c = Config::new(k(0), k(1), k(2), 1., 1., 0., &fc, "", "", "");
        if which == 3 {
            c.set_temperatures(g);
        }
        if which == 4 {
            c.set_chemicalpotentials(g);
        }
        let v = match which {
            0 | 3 => c.temps(),
            1 | 4 => c.chempots(),
            _ => c.momenta(),
        };
        *out = v.len() as f64;
        for i in 0..v.len() {
            *out.add(1 + i) = v[i];
        }
    }

    // pbase is the first momentum
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_pbase(a: *const f64, n: *const u32, out: *mut f64) {
        let mut r = Rd { a, n };
        let g = (r.r(), r.r(), r.r());
        let fc = FieldConfig::new(3, 1., vec![]);
        let o = (0., 0., 1.);
        let c = Config::new(o, o, g, 1., 1., 0., &fc, "", "", "");
        *out = c.pbase;
    }
}
