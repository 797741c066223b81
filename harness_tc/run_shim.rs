
// stand-ins for files, plots and the propagators; see checks/c25.py
#[allow(clippy::all, dead_code, unused)]
mod vshim {
    use super::{FieldConfig, C, R};

    pub static mut OUT: *mut f64 = std::ptr::null_mut();
    pub static mut W: *const f64 = std::ptr::null();

    pub fn put(x: f64) {
        unsafe {
            *OUT = x;
            OUT = OUT.add(1);
        }
    }

    fn w(i: usize) -> f64 {
        unsafe { *W.add(i) }
    }

    // a generic function of everything a propagator depends on
    fn mock(k: usize, om: R, p: R, beta: R, mu: R, f0: R, c: &FieldConfig) -> C {
        let mut v = w(k) + w(4) * om + w(5) * p + w(6) * beta + w(7) * mu + w(8) * f0 + w(9) * c.gluon;
        for q in &c.quarks {
            v += w(10) * q.1;
        }
        if k >= 2 {
            v += (w(11) + w(12) * mu) * mu;
        }
        C::new(v, 3. * v + 1.)
    }

    pub fn propagator_l_landau(om: R, p: R, beta: R, mu: R, f0: R, c: &FieldConfig) -> C {
        mock(0, om, p, beta, mu, f0, c)
    }
    pub fn propagator_t_landau(om: R, p: R, beta: R, mu: R, f0: R, c: &FieldConfig) -> C {
        mock(1, om, p, beta, mu, f0, c)
    }
    pub fn propagator_l_zero_temp_landau(om: R, p: R, mu: R, f0: R, c: &FieldConfig) -> C {
        mock(2, om, p, 0., mu, f0, c)
    }
    pub fn propagator_t_zero_temp_landau(om: R, p: R, mu: R, f0: R, c: &FieldConfig) -> C {
        mock(3, om, p, 0., mu, f0, c)
    }

    pub struct Dir;
    impl Dir {
        pub fn join<T>(&self, _: T) -> Dir {
            Dir
        }
        pub fn as_path(&self) -> &Dir {
            self
        }
        pub fn to_string_lossy(&self) -> &'static str {
            ""
        }
        pub fn to_str(&self) -> Option<&'static str> {
            None
        }
        pub fn display(&self) -> &'static str {
            ""
        }
    }
    macro_rules! lazy_static {
        ($($(#[$a:meta])* static ref $n:ident : $t:ty = $e:expr;)*) => { $(static $n: vshim::Dir = vshim::Dir;)* };
    }
    pub(crate) use lazy_static;
    macro_rules! info {
        ($($x:tt)*) => {
            ()
        };
    }
    pub(crate) use info;
    macro_rules! format {
        ($($x:tt)*) => {
            String::new()
        };
    }
    pub(crate) use format;
    // text written to a file whose numbers are not recognised
    macro_rules! writeln {
        ($o:expr, $($x:tt)*) => {
            vshim::text(&$o)
        };
    }
    pub(crate) use writeln;
    pub fn text<T>(_: &T) -> Result<(), ()> {
        Ok(())
    }

    // numbers written to files, in order
    pub static mut LINES: [f64; 64] = [0.; 64];
    pub static mut NLINES: usize = 0;
    pub trait Number {
        fn value(&self) -> f64;
    }
    impl Number for f64 {
        fn value(&self) -> f64 {
            *self
        }
    }
    impl Number for usize {
        fn value(&self) -> f64 {
            *self as f64
        }
    }
    impl Number for u32 {
        fn value(&self) -> f64 {
            *self as f64
        }
    }
    impl<T: Number> Number for &T {
        fn value(&self) -> f64 {
            (**self).value()
        }
    }
    pub fn value<T: Number>(x: &T) -> f64 {
        x.value()
    }
    pub fn line<T>(_: &T, v: &[f64]) -> Result<(), ()> {
        for x in v {
            unsafe {
                LINES[NLINES] = *x;
                NLINES += 1;
            }
        }
        Ok(())
    }

    pub mod fs {
        pub fn create_dir_all<T>(_: T) -> Result<(), ()> {
            Ok(())
        }
        pub fn canonicalize<T>(_: T) -> std::io::Result<std::path::PathBuf> {
            panic!()
        }
        pub struct File;
        impl File {
            pub fn create<T>(_: T) -> Result<File, ()> {
                Ok(File)
            }
            pub fn open<T>(_: T) -> Result<File, ()> {
                Ok(File)
            }
        }
        impl std::io::Read for File {
            fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
                panic!()
            }
        }
    }
    pub struct BufWriter<T>(T);
    impl<T> BufWriter<T> {
        pub fn new(x: T) -> Self {
            BufWriter(x)
        }
    }
    impl<T> std::io::Write for BufWriter<T> {
        fn write(&mut self, _: &[u8]) -> std::io::Result<usize> {
            panic!()
        }
        fn flush(&mut self) -> std::io::Result<()> {
            panic!()
        }
    }

    pub struct Plot2D {
        domain: Vec<f64>,
        images: Vec<Vec<f64>>,
    }
    impl Plot2D {
        pub fn new() -> Self {
            Plot2D { domain: vec![], images: vec![] }
        }
        pub fn set_domain(&mut self, d: Vec<f64>) -> &mut Self {
            self.domain = d;
            self
        }
        pub fn insert_image(&mut self, v: Vec<f64>) -> &mut Self {
            self.images.push(v);
            self
        }
        pub fn set_xlabel(&mut self, _: &str) -> &mut Self {
            self
        }
        pub fn set_ylabel(&mut self, _: &str) -> &mut Self {
            self
        }
        pub fn set_title(&mut self, _: &str) -> &mut Self {
            self
        }
        pub fn set_legend(&mut self, _: Vec<&str>) -> &mut Self {
            self
        }
        pub fn set_path(&mut self, _: &str) -> &mut Self {
            self
        }
        pub fn set_xlim(&mut self, _: (f64, f64)) -> &mut Self {
            self
        }
        pub fn set_ylim(&mut self, _: (f64, f64)) -> &mut Self {
            self
        }
        pub fn savefig(&self) -> Result<(), ()> {
            put(self.domain.len() as f64);
            for x in &self.domain {
                put(*x);
            }
            put(self.images.len() as f64);
            for v in &self.images {
                put(v.len() as f64);
                for x in v {
                    put(*x);
                }
            }
            Ok(())
        }
    }
}
#[allow(unused)]
use vshim::{
    format, propagator_l_landau, propagator_l_zero_temp_landau, propagator_t_landau, propagator_t_zero_temp_landau,
    writeln, Plot2D,
};

#[allow(clippy::all, dead_code, unused)]
mod vharness_tail {
    use super::config::Config;
    use super::vshim;
    use super::FieldConfig;

    // which output; om, renormalisation point, f0, last temperature, its step,
    // first, last chemical potential, its step, first, last momentum, its step,
    // configuration, corrected one, height of the (flat) boundary, use it?,
    // weights of the stand-in propagators
    #[no_mangle]
    pub unsafe extern "C" fn h_tc_run(a: *const f64, n: *const u32, out: *mut f64) {
        let mut ka = 0;
        let mut kn = 0;
        let mut r = || {
            ka += 1;
            *a.add(ka - 1)
        };
        let mut u = || {
            kn += 1;
            *n.add(kn - 1)
        };
        let which = u();
        let corrected = u();
        let (om, ren, f0) = (r(), r(), r());
        let temps = (0., r(), r());
        let mus = (r(), r(), r());
        let ps = (r(), r(), r());
        let (m, q0, q1, mc, qc0, qc1, edge) = (r(), r(), r(), r(), r(), r(), r());
        vshim::W = a.add(ka);
        vshim::OUT = out;
        vshim::NLINES = 0;
        let fc = FieldConfig::new(3, m, vec![(2, q0), (1, q1)]);
        let cc = FieldConfig::new(3, mc, vec![(2, qc0), (1, qc1)]);
        let pb = [(0., edge), (1e9, edge)];
        let mut c = Config::new(temps, mus, ps, om, ren, f0, &fc, "", "", "");
        if corrected == 1 {
            c.set_correctedfieldconfig(Some(&cc));
            c.set_phase_boundary(Some(&pb));
        }
        match which {
            0 => super::compute_ir_limit(&c),
            1 => super::compute_propagators(&c),
            2 => super::compute_transverse_propagators(&c),
            _ => {
                let b = super::compute_phase_diagram(&c);
                vshim::put(b.len() as f64);
                for (x, y) in b {
                    vshim::put(x);
                    vshim::put(y);
                }
            }
        }
        // what was written to files
        vshim::put(vshim::NLINES as f64);
        for i in 0..vshim::NLINES {
            vshim::put(vshim::LINES[i]);
        }
    }
}
