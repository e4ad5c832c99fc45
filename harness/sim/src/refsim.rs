//! Dense reference simulator. Branch-free in the amplitudes.
use num_complex::Complex64 as C;
pub type M2 = [[C; 2]; 2];
#[derive(Clone)]
pub struct Ref { pub n: usize, pub v: Vec<C> }
pub fn c(re: f64, im: f64) -> C { C::new(re, im) }
pub const R2: f64 = std::f64::consts::FRAC_1_SQRT_2;
pub fn mat(name: u32, th: f64) -> M2 {
    let (o, l) = (c(0., 0.), c(1., 0.));
    match name {
        X => [[o, l], [l, o]],
        Y => [[o, c(0., -1.)], [c(0., 1.), o]],
        Z => [[l, o], [o, c(-1., 0.)]],
        H => [[c(R2, 0.), c(R2, 0.)], [c(R2, 0.), c(-R2, 0.)]],
        S => [[l, o], [o, c(0., 1.)]],
        SA => [[l, o], [o, c(0., -1.)]],
        T => [[l, o], [o, c(R2, R2)]],
        TA => [[l, o], [o, c(R2, -R2)]],
        RX => { let (k, s) = ((th / 2.).cos(), (th / 2.).sin()); [[c(k, 0.), c(0., -s)], [c(0., -s), c(k, 0.)]] }
        RY => { let (k, s) = ((th / 2.).cos(), (th / 2.).sin()); [[c(k, 0.), c(-s, 0.)], [c(s, 0.), c(k, 0.)]] }
        RZ => { let (k, s) = ((th / 2.).cos(), (th / 2.).sin()); [[c(k, -s), o], [o, c(k, s)]] }
        // diag(1, e^{i th})
        PH => { let (k, s) = (th.cos(), th.sin()); [[l, o], [o, c(k, s)]] }
        _ => [[l, o], [o, l]],
    }
}
pub const X: u32 = 0;
pub const Y: u32 = 1;
pub const Z: u32 = 2;
pub const H: u32 = 3;
pub const S: u32 = 4;
pub const SA: u32 = 5;
pub const T: u32 = 6;
pub const TA: u32 = 7;
pub const RX: u32 = 8;
pub const RY: u32 = 9;
pub const RZ: u32 = 10;
pub const PH: u32 = 11;
pub const ID: u32 = 12;

impl Ref {
    /// matrix m on qubit t where all qubits of mask are 1
    pub fn cgate(&mut self, mask: usize, m: &M2, t: usize) {
        for i in 0..self.v.len() {
            if i >> t & 1 == 0 && i & mask == mask {
                let j = i | 1 << t;
                let (a, b) = (self.v[i], self.v[j]);
                self.v[i] = m[0][0] * a + m[0][1] * b;
                self.v[j] = m[1][0] * a + m[1][1] * b;
            }
        }
    }
    pub fn gate(&mut self, g: u32, th: f64, t: usize) { self.cgate(0, &mat(g, th), t) }
    pub fn ctl(&mut self, g: u32, th: f64, ctls: &[usize], t: usize) { let m = ctls.iter().fold(0, |m, q| m | 1 << q); self.cgate(m, &mat(g, th), t) }
    /// exp(i th P), P given as (qubit, pauli) with pauli 0=I 1=X 2=Z 3=Y
    pub fn exp(&mut self, ctls: &[usize], ps: &[(usize, u32)], th: f64) {
        let mask = ctls.iter().fold(0, |m, q| m | 1 << q);
        let (k, s) = (th.cos(), th.sin());
        let mut p = self.clone();
        for (q, g) in ps { match g { 1 => p.gate(X, 0., *q), 2 => p.gate(Z, 0., *q), 3 => p.gate(Y, 0., *q), _ => {} } }
        for i in 0..self.v.len() { if i & mask == mask { self.v[i] = self.v[i] * k + c(0., s) * p.v[i]; } }
    }
    pub fn swap(&mut self, a: usize, b: usize) {
        for i in 0..self.v.len() { if i >> a & 1 == 1 && i >> b & 1 == 0 { self.v.swap(i, i ^ (1 << a) ^ (1 << b)); } }
    }
    /// probability of odd parity over the masked qubits
    pub fn prob(&self, mask: usize) -> f64 { let mut p = 0.0; for (i, a) in self.v.iter().enumerate() { if (i & mask).count_ones() & 1 == 1 { p += a.norm_sqr(); } } p }
    /// unnormalised projection onto the given parity
    pub fn project(&mut self, mask: usize, val: bool) { for (i, a) in self.v.iter_mut().enumerate() { if ((i & mask).count_ones() & 1 == 1) != val { *a = c(0., 0.); } } }
    /// drop qubit t, keeping the amplitudes where it reads val
    pub fn discard(&mut self, t: usize, val: bool) {
        let mut v = vec![];
        for i in 0..self.v.len() / 2 { let lo = i & ((1 << t) - 1); let hi = i >> t << (t + 1); v.push(self.v[hi | (val as usize) << t | lo]); }
        self.v = v;
        self.n -= 1;
    }
    /// a new qubit in |0> as bit t
    pub fn insert(&mut self, t: usize) {
        let mut v = vec![c(0., 0.); self.v.len() * 2];
        for (i, a) in self.v.iter().enumerate() { let lo = i & ((1 << t) - 1); v[i >> t << (t + 1) | lo] = *a; }
        self.v = v;
        self.n += 1;
    }
    pub fn norm_sqr(&self) -> f64 { self.v.iter().fold(0.0, |s, a| s + a.norm_sqr()) }
    pub fn scale(&mut self, k: f64) { for a in self.v.iter_mut() { *a = *a * k; } }
    pub fn flat(&self) -> Vec<f64> { self.v.iter().flat_map(|a| [a.re, a.im]).collect() }
}
