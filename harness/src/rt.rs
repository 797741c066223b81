use qcd_sme::qcd::FieldConfig;
use qcd_sme::{Integral, C, R};

pub struct Rd {
    a: *const f64,
    n: *const u32,
}

impl Rd {
    pub fn new(a: *const f64, n: *const u32) -> Self {
        Self { a, n }
    }
    pub unsafe fn r(&mut self) -> R {
        let v = *self.a;
        self.a = self.a.add(1);
        v
    }
    pub fn rest(&self) -> *const f64 {
        self.a
    }
    pub unsafe fn c(&mut self) -> C {
        let re = self.r();
        let im = self.r();
        C { re, im }
    }
    pub unsafe fn u(&mut self) -> u32 {
        let v = *self.n;
        self.n = self.n.add(1);
        v
    }
    pub unsafe fn m(&mut self) -> Integral {
        let tol = self.r();
        let it = self.u();
        match self.u() {
            0 => Integral::GaussLegendre(it as usize),
            1 => Integral::NewtonCotes(it as usize),
            2 => Integral::G7K15(tol, it),
            3 => Integral::G10K21(tol, it),
            4 => Integral::G15K31(tol, it),
            5 => Integral::G20K41(tol, it),
            6 => Integral::G25K51(tol, it),
            7 => Integral::G30K61(tol, it),
            8 => Integral::G7K15R(tol, it),
            9 => Integral::G10K21R(tol, it),
            10 => Integral::G15K31R(tol, it),
            11 => Integral::G20K41R(tol, it),
            12 => Integral::G25K51R(tol, it),
            _ => Integral::G30K61R(tol, it),
        }
    }
    pub unsafe fn quarks(&mut self) -> Vec<(u32, R)> {
        let len = self.u();
        let mut v = Vec::new();
        for _ in 0..len {
            let nf = self.u();
            let mq = self.r();
            v.push((nf, mq));
        }
        v
    }
    pub unsafe fn cfg(&mut self) -> FieldConfig {
        let nc = self.u();
        let m = self.r();
        let q = self.quarks();
        FieldConfig::new(nc, m, q)
    }
}

pub unsafe fn put_r(out: *mut f64, v: R) {
    *out = v;
}
pub unsafe fn put_c(out: *mut f64, v: C) {
    *out = v.re;
    *out.add(1) = v.im;
}
pub unsafe fn put_u(out: *mut f64, v: u32) {
    *out = v as f64;
}
