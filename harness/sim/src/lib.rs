#![allow(clippy::all)]
mod refsim;
use ndarray::Array2;
use num_complex::Complex64 as C;
use quantum_sparse_sim::{QuantumSim, exp::Pauli};
use refsim::*;
use sym::*;

macro_rules! entries { ($($n:ident $b:block)*) => {
    $( #[unsafe(no_mangle)] pub extern "C" fn $n() $b )*
    pub fn entry(n: &str) -> Option<extern "C" fn()> { match n { $( stringify!($n) => Some($n), )* _ => None } }
} }

fn idx(k: &num_bigint::BigUint) -> usize { let d = k.to_u64_digits(); match d.len() { 0 => 0, 1 => d[0] as usize, _ => usize::MAX } }
/// the simulator's state as a dense vector over its n qubits (ids 0..n in order)
fn dense(s: &mut QuantumSim, n: usize) -> Ref {
    let (st, cnt) = s.get_state();
    check(cnt == n, "number of allocated qubits");
    let mut v = vec![c(0., 0.); 1 << n];
    for (k, a) in st { let i = idx(&k); check(i < v.len(), "basis index out of range"); v[i] = v[i] + a; }
    Ref { n, v }
}
/// put the simulator into an arbitrary state supported on the masked basis states
fn arbitrary(s: &mut QuantumSim, qs: &[usize], mask: usize) {
    let n = qs.len();
    let cnt = mask.count_ones() as usize;
    let mut a = vec![0.0; 2 * cnt];
    amps(&mut a);
    let mut m = Array2::from_elem((1 << n, 1 << n), c(0., 0.));
    let mut j = 0;
    for i in 0..1 << n { if mask >> i & 1 == 1 { m[[i, 0]] = c(a[2 * j], a[2 * j + 1]); j += 1; } }
    let r: Vec<usize> = qs.iter().rev().copied().collect();
    s.apply(&m, &r, None);
}
fn gate(s: &mut QuantumSim, g: u32, th: f64, t: usize) {
    match g { X => s.x(t), Y => s.y(t), Z => s.z(t), H => s.h(t), S => s.s(t), SA => s.sadj(t), T => s.t(t), TA => s.tadj(t), RX => s.rx(th, t), RY => s.ry(th, t), RZ => s.rz(th, t), _ => {} }
}
fn theta(g: u32) -> f64 { if g >= RX && g <= PH { angle() } else { 0.0 } }

/// the same gate on the simulator and on the reference
fn g1(s: &mut QuantumSim, v: &mut Ref, g: u32, q: usize) { let th = theta(g); gate(s, g, th, q); v.gate(g, th, q); }
/// leave work of kind k pending on qubit q (id q is also bit q of the reference)
fn pend(s: &mut QuantumSim, v: &mut Ref, k: usize, q: usize) {
    match k {
        1 => g1(s, v, H, q),
        2 => g1(s, v, RX, q),
        3 => g1(s, v, RY, q),
        4 => { g1(s, v, H, q); g1(s, v, RY, q) }
        5 => { g1(s, v, RX, q); g1(s, v, RY, q) }
        6 => g1(s, v, Y, q),
        7 => { g1(s, v, S, q); g1(s, v, X, q); g1(s, v, H, q) }
        _ => {}
    }
}
const NPEND: usize = 8;
/// n fresh qubits whose internal locations are permuted according to choice k
fn fresh(n: usize, k: usize) -> QuantumSim {
    let mut s = QuantumSim::new(None);
    for i in 0..n { let q = s.allocate(); check(q == i, "identifiers are handed out in order"); }
    if n > 1 { match k { 1 => s.swap_qubit_ids(0, n - 1), 2 => { s.swap_qubit_ids(0, 1); if n > 2 { s.swap_qubit_ids(1, 2) } } _ => {} } }
    s
}
/// n qubits in an arbitrary state supported on mask
fn start(n: usize, perm: usize, mask: usize) -> (QuantumSim, Ref) {
    let mut s = fresh(n, perm);
    let qs: Vec<usize> = (0..n).collect();
    arbitrary(&mut s, &qs, mask);
    let v = dense(&mut s, n);
    // get_state reorders the locations: permute again
    match perm { 1 => { s.swap_qubit_ids(0, n - 1); let mut v = v; v.swap(0, n - 1); return (s, v) } _ => {} }
    (s, v)
}
fn same(s: &mut QuantumSim, v: &Ref, id: &str) { let w = dense(s, v.n); states(&w.flat(), &v.flat(), id); }
const NMC: usize = 12;
fn mcgate(s: &mut QuantumSim, g: u32, th: f64, c: &[usize], t: usize) {
    match g { X => s.mcx(c, t), Y => s.mcy(c, t), Z => s.mcz(c, t), H => s.mch(c, t), S => s.mcs(c, t), SA => s.mcsadj(c, t), T => s.mct(c, t), TA => s.mctadj(c, t), RX => s.mcrx(c, th, t), RY => s.mcry(c, th, t), RZ => s.mcrz(c, th, t), _ => s.mcphase(c, C::new(th.cos(), th.sin()), t) }
}
fn gc(s: &mut QuantumSim, v: &mut Ref, g: u32, c: &[usize], t: usize) { let th = theta(g); mcgate(s, g, th, c, t); v.ctl(g, th, c, t); }

/// draws made so far on any random stream
fn draws() -> u64 { rand::draws() }
fn paulis(code: usize, n: usize) -> (Vec<Pauli>, Vec<u32>) {
    let mut a = vec![]; let mut b = vec![];
    for i in 0..n { let k = code >> (2 * i) & 3; b.push(k as u32); a.push(match k { 0 => Pauli::I, 1 => Pauli::X, 2 => Pauli::Z, _ => Pauli::Y }); }
    (a, b)
}
/// a measurement with outcome res of the masked qubits, sample u: check the outcome, project the reference
fn born(v: &mut Ref, mask: usize, res: bool, u: f64) {
    let p = v.prob(mask);
    check(res == (u < p), "outcome is 1 exactly when the sample is below the probability of odd parity");
    let q = if res { p } else { 1.0 - p };
    v.project(mask, res);
    v.scale(1.0 / q.sqrt());
}
/// qubits by identifier on top of the dense reference (whose bit i is the i-th lowest live id)
struct Model { ids: Vec<usize>, v: Ref }
impl Model {
    fn pos(&self, id: usize) -> usize { let mut i = 0; while self.ids[i] != id { i += 1; } i }
    fn has(&self, id: usize) -> bool { self.ids.iter().any(|x| *x == id) }
    fn alloc(&mut self) -> usize {
        let mut id = 0;
        while self.has(id) { id += 1; }
        let p = self.ids.iter().filter(|x| **x < id).count();
        self.ids.insert(p, id);
        self.v.insert(p);
        id
    }
    fn drop(&mut self, id: usize, res: bool) { let p = self.pos(id); self.ids.remove(p); self.v.discard(p, res); }
    fn gate(&mut self, s: &mut QuantumSim, g: u32, id: usize) { let th = theta(g); gate(s, g, th, id); let p = self.pos(id); self.v.gate(g, th, p); }
    /// release id in both; ix is the position in the random stream of the sample it uses
    fn release(&mut self, s: &mut QuantumSim, id: usize, u: f64) {
        let only = self.ids.len() == 1;
        s.release(id);
        if only { self.ids.clear(); self.v = Ref { n: 0, v: vec![c(1., 0.)] }; return; }
        let p = self.pos(id);
        let pr = self.v.prob(1 << p);
        let res = u < pr;
        let q = if res { pr } else { 1.0 - pr };
        self.v.project(1 << p, res);
        self.v.scale(1.0 / q.sqrt());
        self.drop(id, res);
    }
    fn same(&self, s: &mut QuantumSim, id: &str) { same(s, &self.v, id) }
}

/// the simulator's state as a dense vector over the qubits whose positions among the live ones (in
/// ascending order of identifier) are given; all others must be zero
fn dense_at(s: &mut QuantumSim, cnt: usize, pos: &[usize]) -> Ref {
    let (st, n) = s.get_state();
    check(n == cnt, "number of allocated qubits");
    let mut v = vec![c(0., 0.); 1 << pos.len()];
    for (k, a) in st {
        let mut i = 0;
        let mut ones = 0;
        for (b, p) in pos.iter().enumerate() { if k.bit(*p as u64) { i |= 1 << b; ones += 1; } }
        check(k.count_ones() == ones, "qubits that were never touched are zero");
        v[i] = v[i] + a;
    }
    Ref { n: pos.len(), v }
}
/// more qubits than fit in a machine word, three of them (identifiers in the Wide) in an arbitrary
/// state, everything else zero; bit i of the reference is identifier at[i]
struct Wide { s: QuantumSim, v: Ref, at: [usize; 3], cnt: usize }
const NWIDE: usize = 8;
fn wide(k: usize, mask: usize) -> Wide {
    let at = [[0, 63, 64], [31, 32, 66], [62, 64, 65], [5, 63, 66], [1, 33, 65], [64, 65, 66], [63, 127, 128], [0, 65, 130]][k];
    let cnt = if k < 6 { 67 } else { 131 };
    let mut s = fresh(cnt, 0);
    arbitrary(&mut s, &at, mask);
    let mut v = dense_at(&mut s, cnt, &at);
    // get_state puts the locations in order: permute them again
    s.swap_qubit_ids(at[0], at[2]);
    v.swap(0, 2);
    Wide { s, v, at, cnt }
}
/// m + 3 qubits: the first three in an arbitrary state, bit i of zeros says whether qubit 3 + i is 0
/// (otherwise 1, by a gate that may still be deferred); with p, other work is pending too
fn many(m: usize, zeros: usize, p: bool) -> (QuantumSim, Ref) {
    let mut s = fresh(m + 3, 0);
    arbitrary(&mut s, &[m + 2, 3, 2], 0b10010110);
    let mut v = dense(&mut s, m + 3);
    // get_state puts the locations in order: move them
    s.swap_qubit_ids(0, m + 2);
    v.swap(0, m + 2);
    s.swap_qubit_ids(1, 3);
    v.swap(1, 3);
    for i in 0..m { if zeros >> i & 1 == 0 { g1(&mut s, &mut v, X, 3 + i); } }
    if p { g1(&mut s, &mut v, H, 0); g1(&mut s, &mut v, RX, 4); }
    (s, v)
}
impl Wide {
    fn g(&mut self, g: u32, i: usize) { let th = theta(g); gate(&mut self.s, g, th, self.at[i]); self.v.gate(g, th, i); }
    fn pend(&mut self, k: usize, i: usize) { match k { 1 => self.g(H, i), 2 => self.g(RX, i), 3 => { self.g(H, i); self.g(RY, i) } 4 => self.g(Y, i), _ => {} } }
    fn same(&mut self, id: &str) { let w = dense_at(&mut self.s, self.cnt, &self.at); states(&w.flat(), &self.v.flat(), id); }
    /// identifiers for reference bits
    fn ids(&self, bits: &[usize]) -> Vec<usize> { bits.iter().map(|b| self.at[*b]).collect() }
}

const FPI: f64 = std::f64::consts::PI;
/// a fixed sequence of numbers for number k
struct Seq(u64);
impl Seq {
    fn new(k: usize) -> Seq { let mut s = Seq(k as u64 * 0x9E37_79B9_7F4A_7C15 + 0x1234_5678_9abc_def1); for _ in 0..3 { s.n(2); } s }
    fn n(&mut self, m: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; ((self.0 >> 20) % m as u64) as usize }
}
/// long histories: a fixed sequence of operations of the chosen kinds on three or four qubits, of which
/// two start in an arbitrary state; up to two rotations have arbitrary angles
/// kinds: bit 0 gates, 1 controlled gates, 2 Exp, 3 measurements, 4 queries, 5 swapped identifiers,
/// 6 allocation and release, 7 snapshots, 8 matrices, 9 forced collapse
fn long(seq: usize, len: usize, kinds: usize, what: &str) {
    let (mut r, len) = (Seq::new(seq), if seq % 3 == 0 { 6 * len } else { len });
    let mut s = fresh(3, 0);
    s.set_rng_seed(9);
    arbitrary(&mut s, &[2, 0], [0b0010, 0b1001, 0b0110][seq % 3]);
    let mut m = Model { ids: vec![0, 1, 2], v: dense(&mut s, 3) };
    let ks: Vec<usize> = (0..10).filter(|i| kinds >> i & 1 == 1).collect();
    let (mut used, mut sy) = (0, 0);
    let mut at = [r.n(len), r.n(len)];
    for i in 0..len {
        let l = m.ids.len();
        let (a, b) = (r.n(l), (r.n(l - 1) + 1));
        let (p, p2) = (a, (a + b) % l);
        let (q, q2) = (m.ids[p], m.ids[p2]);
        let kind = if r.n(3) == 0 { 0 } else { ks[r.n(ks.len())] };
        // angles: arbitrary in two places, otherwise multiples of a quarter turn or an odd one
        let mut th = |g: u32, r: &mut Seq| if g >= RX && g <= PH { if at.contains(&i) && sy < seq % 3 { sy += 1; angle() } else { [0.5 * FPI, FPI, -0.25 * FPI, 0.37, 2.5, -FPI][r.n(6)] } } else { 0.0 };
        match kind {
            0 => { let g = r.n(11) as u32; let t = th(g, &mut r); gate(&mut s, g, t, q); m.v.gate(g, t, p); }
            1 => { let g = r.n(NMC) as u32; let t = th(g, &mut r); mcgate(&mut s, g, t, &[q2], q); m.v.ctl(g, t, &[p2], p); }
            2 => { let (ps, rs) = paulis(1 + r.n(15), 2); let t = th(RX, &mut r); s.exp(&ps, t, &[q, q2]); m.v.exp(&[], &[(p, rs[0]), (p2, rs[1])], t); }
            3 => {
                let j = r.n(3) == 0;
                let d = draws();
                let o = if j { s.joint_measure(&[q, q2]) } else { s.measure(q) };
                check(draws() == d + 1, "one sample is drawn per measurement");
                used += 1;
                born(&mut m.v, if j { 1 << p | 1 << p2 } else { 1 << p }, o, sample(9, used));
            }
            4 => { let j = r.n(2); let x = if j == 0 { s.joint_probability(&[q, q2]) } else { s.joint_probability(&[q]) }; near(x, m.v.prob(if j == 0 { 1 << p | 1 << p2 } else { 1 << p }), 1e-7, "joint probability"); }
            5 => { s.swap_qubit_ids(q, q2); m.v.swap(p, p2); }
            6 => {
                if l == 2 || (l < 5 && r.n(2) == 0) { let want = m.alloc(); check(s.allocate() == want, "the lowest free identifier is allocated"); }
                else { used += 1; let u = sample(9, used); m.release(&mut s, q, u); }
            }
            7 => m.same(&mut s, what),
            _ => { let mut w = Array2::from_elem((2, 2), c(0., 0.)); w[[0, 1]] = c(0., 1.); w[[1, 0]] = c(-1., 0.); s.apply(&w, &[q], Some(&[q2])); m.v.cgate(1 << p2, &[[c(0., 0.), c(0., 1.)], [c(-1., 0.), c(0., 0.)]], p); }
        }
    }
    m.same(&mut s, what);
}

entries! {
    h_h01 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 60 } else { 20 }, 1, "state after a long sequence of gates") }
    h_h02 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 40 } else { 18 }, 3, "state after a long sequence of controlled gates") }
    h_h03 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 30 } else { 16 }, 7, "state after a long sequence of Exps") }
    h_h04 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 30 } else { 16 }, 0x103, "state after a long sequence with matrices") }
    h_h05 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 20 } else { 12 }, 0x0b, "state after a long sequence with measurements") }
    h_h06 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 30 } else { 16 }, 0x13, "state after a long sequence with queries") }
    h_h07 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 24 } else { 16 }, 0x63, "state after a long sequence with allocations, releases and swaps") }
    h_h08 { let k = choice(if thorough() { 240 } else { 24 }); long(k + 1000, if thorough() { 24 } else { 16 }, 0xc3, "the other qubits within a long sequence with releases") }
    h_h09 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 40 } else { 24 }, 0x23, "state after a long sequence with swaps") }
    h_h12 { let k = choice(if thorough() { 240 } else { 24 }); long(k, if thorough() { 30 } else { 16 }, 0xa3, "snapshots within a long sequence") }
    h_w01 {
        // a gate on one of many qubits
        let g = choice(11) as u32;
        let (k, q, l) = (choice(NWIDE), choice(3), choice(5));
        let mut w = wide(k, 0b10110010);
        w.pend(l, q);
        w.g(g, q);
        w.g(H, (q + 1) % 3);
        w.same("state of many qubits after gates");
    }
    h_w02 {
        // a controlled gate
        let g = choice(NMC) as u32;
        let (k, o, l) = (choice(NWIDE), choice(4), choice(4));
        let mut w = wide(k, 0b10110010);
        let (t, cs): (usize, &[usize]) = [(0, &[2][..]), (2, &[0]), (1, &[2, 0]), (2, &[1, 0])][o];
        w.pend(l, t);
        if l == 3 { w.pend(1, cs[0]); }
        let th = theta(g);
        let (ids, id) = (w.ids(cs), w.at[t]);
        mcgate(&mut w.s, g, th, &ids, id);
        w.v.ctl(g, th, cs, t);
        w.same("state of many qubits after a controlled gate");
    }
    h_w22 {
        // many controls
        let g = choice(NMC) as u32;
        let (m, z, o) = ([3, 4, 5, 8][choice(4)], choice(7), choice(3));
        let (mut s, mut v) = many(m, if z == 0 { 1 << m >> 1 } else { 0 }, z == 2);
        // one kind of work deferred on one of the qubits only
        match z { 3 => g1(&mut s, &mut v, H, 2 + m), 4 => g1(&mut s, &mut v, H, 2 + m / 2 + m % 2), 5 => g1(&mut s, &mut v, H, 1), 6 => g1(&mut s, &mut v, [RX, RY][m & 1], 1 + m), _ => {} }
        let mut cs: Vec<usize> = (3..3 + m).collect();
        let t = match o { 0 => { cs.push(0); 1 } 1 => { cs.insert(0, 2); cs.push(1); 0 } _ => { let t = cs.pop().unwrap(); cs.insert(1, 0); t } };
        let th = theta(g);
        mcgate(&mut s, g, th, &cs, t);
        v.ctl(g, th, &cs, t);
        same(&mut s, &v, "state after a gate with many controls");
    }
    h_w23 {
        // Exp on many qubits
        let pat = choice(6);
        let (m, z, nc) = ([3, 4, 6][choice(3)], choice(5), choice(3));
        let (mut s, mut v) = many(m, 0b10110 & ((1 << m) - 1), z == 2);
        match z { 3 => g1(&mut s, &mut v, H, 2 + m), 4 => g1(&mut s, &mut v, [RX, RY][m / 3 & 1], 1), _ => {} }
        let mut a = vec![]; let mut b = vec![];
        let n = m + 3 - nc;
        let ts: Vec<usize> = (0..n).map(|i| (i * if n % 5 == 0 { 3 } else { 5 } + 1) % n).map(|i| i + nc).collect();
        for i in 0..n { let p = [0b1111111, 0b0101010, 0, 0b1100110, 0b1000001, 0b0011100][pat] >> i & 1; let k = if z == 0 { [2, 3][p] } else if z == 1 { [1, 2][p] } else { [3, 1, 2, 0][(i + p) & 3] }; b.push((ts[i], k as u32)); a.push(match k { 0 => Pauli::I, 1 => Pauli::X, 2 => Pauli::Z, _ => Pauli::Y }); }
        let cs: Vec<usize> = (0..nc).collect();
        let th = angle();
        s.mcexp(&cs, &a, th, &ts);
        v.exp(&cs, &b, th);
        same(&mut s, &v, "state after Exp on many qubits");
    }
    h_w24 {
        // a matrix on three qubits, or with many controls
        let o = choice(4);
        let (m, z) = ([3, 4, 6][choice(3)], choice(5));
        let (mut s, mut v) = many(m, if z == 0 { 2 } else { 0 }, z == 2);
        match z { 3 => g1(&mut s, &mut v, H, 2 + m), 4 => g1(&mut s, &mut v, [RX, RY][m / 3 & 1], 1), _ => {} }
        let cs: Vec<usize> = (3..3 + m).collect();
        let t = [[2, 0, 1], [0, 1, 2], [1, 2, 0], [2, 1, 0]][o];
        let mut a = Array2::from_elem((8, 8), c(0., 0.));
        for i in 0..8 { a[[i, (3 * i + 5) % 8]] = c(real(-1., 1.), real(-1., 1.)); }
        s.apply(&a, &t, Some(&cs));
        let w = v.clone();
        for i in 0..v.v.len() {
            if cs.iter().any(|q| i >> q & 1 == 0) { continue; }
            let row = (i >> t[0] & 1) << 2 | (i >> t[1] & 1) << 1 | (i >> t[2] & 1);
            let col = (3 * row + 5) % 8;
            let j = i & !7 | (col >> 2) << t[0] | (col >> 1 & 1) << t[1] | (col & 1) << t[2];
            v.v[i] = a[[row, col]] * w.v[j];
        }
        same(&mut s, &v, "state after applying a matrix with many controls");
    }
    h_w25 {
        // parity of many qubits
        let m = [3, 4, 6, 8][choice(4)];
        let (k, z, o) = (choice(4), choice(3), choice(5));
        let (mut s, mut v) = many(m, [0, 0b10110101, 0b1101, 0b10001][k] & ((1 << m) - 1), z == 2);
        let mut ids: Vec<usize> = (3..3 + m).collect();
        match z { 0 => ids.push(0), 1 => { ids.insert(1, 2); ids.push(1); } _ => { ids.reverse(); ids.push(0); ids.insert(0, 1); ids.push(2); } }
        let set = ids.iter().fold(0, |m, q| m | 1 << q);
        if o == 0 { near(s.joint_probability(&ids), v.prob(set), 1e-7, "joint probability"); }
        if o == 1 { g1(&mut s, &mut v, X, 3); g1(&mut s, &mut v, Y, 4); }
        if o == 3 { g1(&mut s, &mut v, H, 2 + m); }
        if o == 4 { g1(&mut s, &mut v, [RX, RY][k & 1], 4); }
        s.set_rng_seed(9);
        let res = s.joint_measure(&ids);
        born(&mut v, set, res, sample(9, 1));
        same(&mut s, &v, "state after a joint measurement of many qubits");
    }
    h_w03 {
        // Exp
        let code = choice(16);
        let (k, nc, l) = (choice(NWIDE), choice(2), choice(2));
        let mut w = wide(k, 0b10010110);
        let (t, cs): ([usize; 2], [usize; 1]) = if flag() { ([2, 0], [1]) } else { ([0, 1], [2]) };
        w.pend(l, t[0]);
        let (a, b) = paulis(code, 2);
        let th = angle();
        w.s.mcexp(&w.ids(&cs[..nc]), &a, th, &w.ids(&t));
        w.v.exp(&cs[..nc], &[(t[0], b[0]), (t[1], b[1])], th);
        w.same("state of many qubits after Exp");
    }
    h_w04 {
        // a matrix
        let (k, o, nc, l) = (choice(NWIDE), choice(3), choice(3), choice(2));
        let mut w = wide(k, 0b10010110);
        let o = [[0, 1, 2], [2, 0, 1], [1, 2, 0]][o];
        w.pend(l, o[0]);
        let mut r = || c(real(-1., 1.), real(-1., 1.));
        let m: M2 = [[r(), r()], [r(), r()]];
        let a = Array2::from_shape_fn((2, 2), |(i, j)| m[i][j]);
        if nc == 0 { w.s.apply(&a, &[w.at[o[0]]], None); } else { w.s.apply(&a, &[w.at[o[0]]], Some(&w.ids(&o[1..1 + nc]))); }
        let mask = o[1..1 + nc].iter().fold(0, |m, q| m | 1 << q);
        w.v.cgate(mask, &m, o[0]);
        w.same("state of many qubits after applying a matrix");
    }
    h_w05 {
        // measurements
        let (k, set, l) = (choice(NWIDE), choice(7) + 1, choice(5));
        let mut w = wide(k, 0b10010110);
        let mut bits: Vec<usize> = (0..3).filter(|i| set >> i & 1 == 1).collect();
        if k & 1 == 1 { bits.reverse(); }
        w.pend(l, bits[0]);
        w.s.set_rng_seed(9);
        let res = if bits.len() == 1 { w.s.measure(w.at[bits[0]]) } else { let ids = w.ids(&bits); w.s.joint_measure(&ids) };
        born(&mut w.v, set, res, sample(9, 1));
        w.same("state of many qubits after a measurement");
    }
    h_w06 {
        // probabilities
        let (k, set, l) = (choice(NWIDE), choice(7) + 1, choice(5));
        let mut w = wide(k, 0b10010110);
        let bits: Vec<usize> = (0..3).filter(|i| set >> i & 1 == 1).collect();
        w.pend(l, bits[0]);
        let ids = w.ids(&bits);
        let p = w.s.joint_probability(&ids);
        near(p, w.v.prob(set), 1e-7, "joint probability");
        let one = w.v.prob(1);
        let z = w.s.qubit_is_zero(w.at[0]);
        check(z == (one.abs() <= 1e-10), "qubit_is_zero is true exactly for probability zero");
        w.same("state of many qubits after queries");
    }
    h_w07 {
        // identifiers among many qubits
        let (a, b) = (choice(7), choice(7));
        let ids = [0, 31, 32, 63, 64, 65, 69];
        let n = [70, 130][choice(2)];
        let mut s = fresh(n, 0);
        s.x(1);
        if choice(2) == 1 { s.swap_qubit_ids(ids[a], 66); }
        s.release(ids[a]);
        if b != a { s.release(ids[b]); }
        let lo = ids[a].min(ids[b]);
        let hi = ids[a].max(ids[b]);
        check(s.allocate() == lo, "the lowest free identifier is allocated");
        if lo != hi { check(s.allocate() == hi, "the lowest free identifier is allocated"); }
        check(s.allocate() == n, "the lowest free identifier is allocated");
        s.h(lo);
        s.h(lo);
        check(s.qubit_is_zero(lo) && s.qubit_is_zero(hi) && s.qubit_is_zero(n), "a fresh qubit reads zero");
        let (st, cnt) = s.get_state();
        check(cnt == n + 1, "the number of allocated qubits");
        check(st.len() == 1 && idx(&st[0].0) == 2, "the others are unchanged");
    }
    h_w12 {
        // snapshot of many qubits, with a gap in the identifiers
        let (k, gap, l) = (choice(NWIDE), choice(3), choice(5));
        let mut w = wide(k, 0b10110110);
        w.pend(l, 1);
        w.g(H, 0);
        let mut pos = w.at.to_vec();
        let mut n = w.cnt;
        for id in &[50, 20, 61][..gap] { w.s.release(*id); n -= 1; for i in 0..3 { if w.at[i] > *id { pos[i] -= 1; } } }
        let (st, cnt) = w.s.get_state();
        check(cnt == n, "the number of allocated qubits");
        let mut v = vec![c(0., 0.); 8];
        for i in 0..st.len() {
            if i > 0 { check(st[i - 1].0 < st[i].0, "indexes strictly ascending"); }
            let mut want = num_bigint::BigUint::from(0u32);
            let mut x = 0;
            for b in 0..3 { if st[i].0.bit(pos[b] as u64) { want += num_bigint::BigUint::from(1u32) << pos[b]; x |= 1 << b; } }
            check(want == st[i].0, "qubits that were never touched are zero");
            v[x] = st[i].1;
        }
        let v = Ref { n: 3, v };
        states(&v.flat(), &w.v.flat(), "snapshot shows the state by identifier");
    }
    h_w08 {
        // a release among many qubits: one of the three, or a neighbour
        let (k, q, l) = (choice(NWIDE), choice(4), choice(5));
        let mut w = wide(k, 0b10010110);
        let mut ids = w.at.to_vec();
        w.s.set_rng_seed(9);
        if q == 3 {
            // never touched: certainly zero
            let id = [2, 34, 63, 6, 34, 0, 64, 129][k];
            w.pend(l, 1);
            w.s.release(id);
            let pos: Vec<usize> = ids.iter().map(|i| if *i > id { i - 1 } else { *i }).collect();
            let v = dense_at(&mut w.s, w.cnt - 1, &pos);
            states(&v.flat(), &w.v.flat(), "remaining qubits after a release");
            check(w.s.allocate() == id, "the lowest free identifier is allocated");
            w.same("the identifier reused after a release");
        } else {
            w.pend(l, q);
            w.pend(if l == 4 { 1 } else { 0 }, (q + 1) % 3);
            let id = ids.remove(q);
            w.s.release(id);
            let pr = w.v.prob(1 << q);
            let res = sample(9, 1) < pr;
            w.v.project(1 << q, res);
            w.v.scale(1.0 / (if res { pr } else { 1.0 - pr }).sqrt());
            w.v.discard(q, res);
            let pos: Vec<usize> = ids.iter().map(|i| if *i > id { i - 1 } else { *i }).collect();
            let v = dense_at(&mut w.s, w.cnt - 1, &pos);
            states(&v.flat(), &w.v.flat(), "remaining qubits after a release");
            check(w.s.allocate() == id, "the lowest free identifier is allocated");
            w.v.insert(q);
            w.g(H, q);
            w.same("the identifier reused after a release");
        }
    }
    h_w09 {
        // identifiers swapped
        let (k, l, m) = (choice(NWIDE), choice(5), choice(5));
        let mut w = wide(k, 0b10010110);
        let (a, b) = [(0, 1), (2, 0), (1, 2)][choice(3)];
        w.pend(l, a);
        w.pend(m, b);
        w.s.swap_qubit_ids(w.at[a], w.at[b]);
        w.v.swap(a, b);
        w.g([H, RX, RY, X][choice(4)], a);
        w.same("state of many qubits after a swap of identifiers");
    }
    h_w10 {
        // forced collapse
        let (k, q, val, l) = (choice(NWIDE), choice(3), flag(), choice(5));
        let mut w = wide(k, 0b10010110);
        w.pend(l, q);
        let p = w.s.force_collapse(val, w.at[q]);
        let one = w.v.prob(1 << q);
        let want = if val { one } else { 1.0 - one };
        near(p, want, 1e-7, "probability of the forced value");
        if want.abs() > 1e-10 { w.v.project(1 << q, val); w.v.scale(1.0 / want.sqrt()); }
        w.same("state of many qubits after a forced collapse");
    }
    h_s01a {
        // one qubit entangled with a spectator: every sequence of three gates
        let g = [choice(11) as u32, choice(11) as u32, choice(11) as u32];
        let mut s = QuantumSim::new(None);
        let (q, r) = (s.allocate(), s.allocate());
        arbitrary(&mut s, &[q, r], 0b1001);
        let mut v = dense(&mut s, 2);
        for x in g { let th = theta(x); gate(&mut s, x, th, q); v.gate(x, th, q); }
        let w = dense(&mut s, 2);
        states(&w.flat(), &v.flat(), "state after three gates");
    }
    h_s02a {
        // one control: every gate with every pending work on control and target
        let g = choice(NMC) as u32;
        let (k, l) = (choice(NPEND), choice(NPEND));
        let (mut s, mut v) = start(2, 1, if flag() { 0b1001 } else { 0b1111 });
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        gc(&mut s, &mut v, g, &[0], 1);
        same(&mut s, &v, "state after a controlled gate");
    }
    h_s02b {
        // two controls
        let g = choice(NMC) as u32;
        let (k, l, m) = (choice(4), choice(4), choice(6));
        let (mut s, mut v) = start(3, 1, 0b10110001);
        pend(&mut s, &mut v, k, 2);
        pend(&mut s, &mut v, l, 0);
        pend(&mut s, &mut v, m, 1);
        gc(&mut s, &mut v, g, &[2, 0], 1);
        same(&mut s, &v, "state after a doubly controlled gate");
    }
    h_s01b {
        // work pending on the target and on a neighbour, then a gate on each
        let g = choice(11) as u32;
        let (k, l, m) = (choice(NPEND), choice(NPEND), if thorough() { choice(11) as u32 } else { [Z, RY, H, RX][choice(4)] });
        let (mut s, mut v) = start(2, 1, 0b1011);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        g1(&mut s, &mut v, g, 0);
        g1(&mut s, &mut v, m, 1);
        g1(&mut s, &mut v, m, 0);
        same(&mut s, &v, "state after gates on two qubits with pending work");
    }
    h_s01q {
        // more deferred gates than the queue holds
        let g = [X, Y, Z, S, T, RZ][choice(6)];
        let (mut s, mut v) = start(1, 0, 0b11);
        let th = 0.37;
        for _ in 0..10_002 { gate(&mut s, g, th, 0); }
        gate(&mut s, H, 0., 0);
        // 10000 = 0 modulo the order of each of the discrete gates; X, Y squared are the identity
        if g == RZ { v.gate(RZ, 10_002.0 * th, 0); } else { v.gate(g, 0., 0); v.gate(g, 0., 0); }
        v.gate(H, 0., 0);
        same(&mut s, &v, "state after more gates than the queue holds");
    }
    h_s02q {
        // more deferred controlled gates than the queue holds
        let g = [X, Y, Z, S, T, RZ][choice(6)];
        let (mut s, mut v) = start(2, 0, 0b1111);
        let th = 0.37;
        for _ in 0..10_002 { mcgate(&mut s, g, th, &[1], 0); }
        gate(&mut s, H, 0., 0);
        if g == RZ { v.ctl(RZ, 10_002.0 * th, &[1], 0); } else { v.ctl(g, 0., &[1], 0); v.ctl(g, 0., &[1], 0); }
        v.gate(H, 0., 0);
        same(&mut s, &v, "state after more controlled gates than the queue holds");
    }
    h_s02c {
        // two controlled gates in a row with the roles exchanged, pending H or rotations on both
        let g = choice(NMC) as u32;
        let h = choice(NMC) as u32;
        let (k, l) = ([0, 1, 3, 4][choice(4)], [0, 1, 3, 4][choice(4)]);
        let (mut s, mut v) = start(2, 0, 0b1011);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        gc(&mut s, &mut v, g, &[0], 1);
        gc(&mut s, &mut v, h, &[1], 0);
        same(&mut s, &v, "state after two controlled gates");
    }
    h_s02d {
        // no controls: the plain gate
        let g = choice(NMC) as u32;
        let k = choice(NPEND);
        let (mut s, mut v) = start(2, 1, 0b1011);
        pend(&mut s, &mut v, k, 0);
        gc(&mut s, &mut v, g, &[], 0);
        g1(&mut s, &mut v, H, 0);
        same(&mut s, &v, "state after a controlled gate without controls");
    }
    h_s02e {
        // three controls
        let g = choice(NMC) as u32;
        let (k, l) = (choice(4), choice(6));
        let (mut s, mut v) = start(4, 1, 1 << 15 | 1 << 7 | 1 << 13 | 1 << 4);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 3);
        gc(&mut s, &mut v, g, &[2, 0, 1], 3);
        same(&mut s, &v, "state after a triply controlled gate");
    }
    h_s03a {
        // every two-qubit Pauli string, with and without a control
        let code = choice(16);
        let nc = choice(2);
        let (k, l) = (choice(6), [0, 1, 3][choice(3)]);
        let (mut s, mut v) = start(3, 1, 0b11010010);
        let (t, cs): (Vec<usize>, Vec<usize>) = if flag() { (vec![2, 0], vec![1]) } else { (vec![0, 1], vec![2]) };
        let cs = &cs[..nc];
        pend(&mut s, &mut v, k, t[0]);
        pend(&mut s, &mut v, l, 1);
        let (a, b) = paulis(code, 2);
        let th = angle();
        if nc == 0 && flag() { s.exp(&a, th, &t); } else { s.mcexp(cs, &a, th, &t); }
        v.exp(cs, &[(t[0], b[0]), (t[1], b[1])], th);
        same(&mut s, &v, "state after Exp");
    }
    h_s03b {
        // one target, every pending work, full superposition
        let code = choice(4);
        let nc = choice(2);
        let (k, l) = (choice(NPEND), choice(NPEND));
        let (mut s, mut v) = start(2, 1, 0b1111);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        let (a, b) = paulis(code, 1);
        let th = angle();
        s.mcexp(&[0][..nc], &a, th, &[1]);
        v.exp(&[0][..nc], &[(1, b[0])], th);
        same(&mut s, &v, "state after a one-qubit Exp");
    }
    h_s03d {
        // four targets, most of them Y
        let code = [0xff, 0xfe, 0x7f, 0xfd, 0xdf, 0x3f, 0xf7, 0xfc, 0xaa, 0x55, 0xd9, 0x9e][choice(12)];
        let nc = choice(2);
        let (mut s, mut v) = start(5, 1, 1 << 31 | 1 << 6 | 1 << 25);
        let (a, b) = paulis(code, 4);
        let th = angle();
        s.mcexp(&[1][..nc], &a, th, &[3, 0, 2, 4]);
        v.exp(&[1][..nc], &[(3, b[0]), (0, b[1]), (2, b[2]), (4, b[3])], th);
        same(&mut s, &v, "state after a four-qubit Exp");
    }
    h_s03c {
        // three targets
        let code = choice(64);
        let nc = choice(2);
        let (mut s, mut v) = start(4, 1, 1 << 15 | 1 << 6 | 1 << 9 | 1 << 0);
        let (a, b) = paulis(code, 3);
        let th = angle();
        s.mcexp(&[1][..nc], &a, th, &[3, 0, 2]);
        v.exp(&[1][..nc], &[(3, b[0]), (0, b[1]), (2, b[2])], th);
        same(&mut s, &v, "state after a three-qubit Exp");
    }
    h_s04a {
        // a one-qubit matrix, any position, up to two controls in any order
        let ord = choice(6);
        let nc = choice(3);
        let k = choice(6);
        let dense_m = flag();
        let (mut s, mut v) = start(3, 1, 0b10110010);
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ord];
        let (t, cs) = (o[0], &o[1..1 + nc]);
        pend(&mut s, &mut v, k, o[0]);
        pend(&mut s, &mut v, if k == 3 { 1 } else { 0 }, o[1]);
        let z = c(0., 0.);
        let mut r = || c(real(-1., 1.), real(-1., 1.));
        let m: M2 = if dense_m { [[r(), r()], [r(), r()]] } else { [[z, r()], [r(), z]] };
        let a = Array2::from_shape_fn((2, 2), |(i, j)| m[i][j]);
        if nc == 0 { s.apply(&a, &[t], if flag() { None } else { Some(&[]) }); } else { s.apply(&a, &[t], Some(cs)); }
        let mask = cs.iter().fold(0, |m, q| m | 1 << q);
        v.cgate(mask, &m, t);
        same(&mut s, &v, "state after applying a 2x2 matrix");
    }
    h_s04b {
        // a two-qubit matrix (generalised permutation or full block), in every position
        let ord = choice(6);
        let shape = choice(3);
        let nc = choice(2);
        let (mut s, mut v) = start(3, 1, 0b10010110);
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ord];
        let mut a = Array2::from_elem((4, 4), c(0., 0.));
        for i in 0..4 { for j in 0..4 {
            let used = match shape { 0 => j == (i + 1) % 4, 1 => j == i ^ 2 || i == 0, _ => i / 2 == j / 2 };
            if used { a[[i, j]] = c(real(-1., 1.), real(-1., 1.)); }
        } }
        s.apply(&a, &[o[0], o[1]], if nc == 1 { Some(&o[2..3]) } else { None });
        // first target is the most significant bit of the matrix index
        let w = v.clone();
        for i in 0..8 {
            if nc == 1 && i >> o[2] & 1 == 0 { continue; }
            let row = (i >> o[0] & 1) << 1 | (i >> o[1] & 1);
            let mut x = c(0., 0.);
            for col in 0..4 { let j = i & !(1 << o[0]) & !(1 << o[1]) | (col >> 1) << o[0] | (col & 1) << o[1]; x = x + a[[row, col]] * w.v[j]; }
            v.v[i] = x;
        }
        same(&mut s, &v, "state after applying a 4x4 matrix");
    }
    h_s04c {
        // sizes that do not fit are rejected
        let (r, k, nt, nc) = (1 + choice(5), 1 + choice(5), choice(3), choice(2));
        let mut s = fresh(3, 0);
        let a = Array2::from_shape_fn((r, k), |(i, j)| c((i == j) as u32 as f64, 0.));
        let fits = r == k && r == 1 << nt;
        panic_mode(1);
        if fits { panic_mode(0); }
        s.apply(&a, &[2, 0][..nt], if nc == 1 { Some(&[1]) } else { None });
        if !fits { must_not_return("a matrix of the wrong size is rejected"); }
        let w = dense(&mut s, 3);
        check(w.v[0].re > 0.99, "the identity leaves the ground state");
    }
    h_s05a {
        // one qubit measured, work pending on it and on the other
        let (k, l, q) = (choice(NPEND), choice(NPEND), choice(2));
        let (mut s, mut v) = start(2, 1, if flag() { 0b1111 } else { 0b0110 });
        pend(&mut s, &mut v, k, q);
        pend(&mut s, &mut v, l, 1 - q);
        s.set_rng_seed(9);
        let d = draws();
        let res = s.measure(q);
        check(draws() == d + 1, "a measurement draws one sample");
        born(&mut v, 1 << q, res, sample(9, 1));
        same(&mut s, &v, "state after a measurement");
    }
    h_s05b {
        // joint parity of any non-empty subset, in any order
        let set = choice(7) + 1;
        let (k, l) = (choice(6), choice(2));
        let (mut s, mut v) = start(3, 1, 0b11010110);
        let mut ids: Vec<usize> = (0..3).filter(|i| set >> i & 1 == 1).collect();
        if flag() { ids.reverse(); }
        pend(&mut s, &mut v, k, ids[0]);
        pend(&mut s, &mut v, l, 1);
        s.set_rng_seed(9);
        let d = draws();
        let res = s.joint_measure(&ids);
        check(draws() == d + 1, "a joint measurement draws one sample");
        born(&mut v, set, res, sample(9, 1));
        same(&mut s, &v, "state after a joint measurement");
    }
    h_s05c {
        // two measurements in a row with a gate between them
        let g = choice(11) as u32;
        let q = choice(2);
        let (mut s, mut v) = start(2, 0, 0b1110);
        s.set_rng_seed(9);
        let r = s.measure(0);
        born(&mut v, 1, r, sample(9, 1));
        g1(&mut s, &mut v, g, q);
        let r = s.measure(q);
        let (p, u) = (v.prob(1 << q), sample(9, 2));
        check(r == (u < p), "second outcome follows from the collapsed state");
        v.project(1 << q, r);
        let w = dense(&mut s, 2);
        near(w.norm_sqr(), 1.0, 1e-7, "the collapsed state is normalised");
        for i in 0..4 { if (i >> q & 1 == 1) != r { near(w.v[i].norm_sqr(), 0.0, 1e-9, "the collapsed state has the outcome"); } }
    }
    h_s06a {
        let set = choice(7) + 1;
        let (k, l) = (choice(NPEND), choice(6));
        let (mut s, mut v) = start(3, 1, 0b01010110);
        let mut ids: Vec<usize> = (0..3).filter(|i| set >> i & 1 == 1).collect();
        if flag() { ids.reverse(); }
        pend(&mut s, &mut v, k, ids[0]);
        pend(&mut s, &mut v, l, (ids[0] + 1) % 3);
        let d = draws();
        let p = s.joint_probability(&ids);
        check(draws() == d, "a query draws no sample");
        near(p, v.prob(set), 1e-7, "joint probability");
        g1(&mut s, &mut v, X, ids[0]);
        g1(&mut s, &mut v, H, (ids[0] + 1) % 3);
        same(&mut s, &v, "state after a query and two more gates");
    }
    h_s06b {
        let (k, q) = (choice(NPEND), choice(2));
        let mask = [0b0110, 0b1111, 0b0001, 0b0101, 0b1010, 0b0011][choice(6)];
        let (mut s, mut v) = start(2, 1, mask);
        pend(&mut s, &mut v, k, q);
        let z = s.qubit_is_zero(q);
        let p = v.prob(1 << q);
        check(z == (p.abs() <= 1e-10), "qubit_is_zero is true exactly for probability zero");
        g1(&mut s, &mut v, RY, q);
        same(&mut s, &v, "state after qubit_is_zero and another gate");
    }
    h_s05d {
        // certain and repeated outcomes draw a sample like any other
        let k = choice(8);
        let (a, b) = (choice(3), choice(3));
        let mut s = fresh(3, choice(3));
        s.set_rng_seed(9);
        let mut v = Ref { n: 3, v: vec![c(0., 0.); 8] };
        v.v[k] = c(1., 0.);
        for i in 0..3 { if k >> i & 1 == 1 { s.x(i); } }
        let mut drawn = 0;
        for (i, m) in [a, b].iter().enumerate() {
            let d = draws();
            let (mask, r) = match m { 0 => (2, s.measure(1)), 1 => (5, s.joint_measure(&[2, 0])), _ => (4, s.measure(2)) };
            check(draws() == d + 1, "one sample is drawn per measurement");
            check(r == ((k & mask).count_ones() & 1 == 1), "the outcome is certain");
            if i == 0 { s.z(1); s.h(0); s.h(0); }
            drawn += 1;
        }
        if flag() { s.joint_measure(&[0]); drawn += 1; }
        s.h(0); v.gate(H, 0., 0);
        let d = draws();
        let r = s.measure(0);
        check(draws() == d + 1, "one sample is drawn per measurement");
        born(&mut v, 1, r, sample(9, drawn + 1));
        let again = s.measure(0);
        check(again == r, "measuring again gives the same outcome");
        check(draws() == d + 2, "one sample is drawn per measurement");
        same(&mut s, &v, "state after measurements with certain outcomes");
    }
    h_s07a {
        // histories of allocations, releases, swaps and gates on up to four qubits
        let n = if thorough() { 4 } else { 3 };
        let (k, m0) = (choice(9), choice(2));
        let mut s = fresh(2, 0);
        s.set_rng_seed(9);
        arbitrary(&mut s, &[0, 1], if m0 == 0 { 0b0110 } else { 0b1011 });
        let mut m = Model { ids: vec![0, 1], v: dense(&mut s, 2) };
        let mut used = 0;
        let mut ch = k;
        for i in 0..n {
            let l = m.ids.len();
            match ch {
                0 | 1 => { if ch == 1 && l > 0 { let q = m.ids[l - 1]; m.gate(&mut s, RY, q); } if l < 4 { let want = m.alloc(); let got = s.allocate(); check(got == want, "the lowest free identifier is allocated"); } }
                2 | 3 | 4 => { let j = ch - 2; if j < l { let id = m.ids[j]; if l > 1 { used += 1; } m.release(&mut s, id, sample(9, used)); } }
                5 | 6 => { if l >= 2 { let (a, b) = if ch == 5 { (0, l - 1) } else { (l - 2, 1 % l) }; let (x, y) = (m.ids[a], m.ids[b]); if a != b { s.swap_qubit_ids(x, y); m.v.swap(a, b); } } }
                7 => if l > 0 { let q = m.ids[0]; m.gate(&mut s, H, q); },
                _ => if l > 0 { let q = m.ids[l - 1]; m.gate(&mut s, X, q); m.gate(&mut s, RX, q); },
            }
            if i + 1 < n { ch = choice(9); }
        }
        let want = m.alloc();
        let d = draws();
        let got = s.allocate();
        check(draws() == d, "allocation draws no sample");
        check(got == want, "the lowest free identifier is allocated");
        // looking at the state tidies it up: use the qubit first
        match choice(3) {
            0 => {}
            1 => check(s.qubit_is_zero(got), "a fresh qubit reads zero"),
            _ => { m.gate(&mut s, X, got); let o = m.ids[if m.ids[0] == got { m.ids.len() - 1 } else { 0 }]; if o != got { s.mcz(&[got], o); let (a, b) = (m.pos(got), m.pos(o)); m.v.ctl(Z, 0., &[a], b); } }
        }
        m.same(&mut s, "a fresh qubit is zero and the others are unchanged");
    }
    h_s07b {
        // every set of live identifiers out of six
        let set = choice(64);
        let mut s = fresh(6, 0);
        for i in 0..6 { if set >> i & 1 == 0 { s.release(i); } }
        let mut want = 0;
        while set >> want & 1 == 1 { want += 1; }
        let got = s.allocate();
        check(got == want, "the lowest free identifier is allocated");
        let (st, n) = s.get_state();
        check(n == (set as u32).count_ones() as usize + 1, "one more qubit is allocated");
        check(st.len() == 1 && idx(&st[0].0) == 0, "all qubits are still zero");
    }
    h_s08a {
        let q = choice(3);
        let (k, l) = (choice(NPEND), choice(6));
        let (mut s, v) = start(3, 1, if flag() { 0b10010110 } else { 0b00110011 });
        let mut m = Model { ids: vec![0, 1, 2], v };
        pend(&mut s, &mut m.v, k, q);
        pend(&mut s, &mut m.v, l, (q + 1) % 3);
        s.set_rng_seed(9);
        m.release(&mut s, q, sample(9, 1));
        m.same(&mut s, "remaining qubits after a release");
        let a = s.allocate();
        let w = m.alloc();
        check(a == w, "a released identifier can be allocated again");
        m.gate(&mut s, H, w);
        m.same(&mut s, "the identifier reused after a release");
    }
    h_s08b {
        // releasing the only qubit clears everything, whatever is deferred
        let k = choice(NPEND);
        let (mut s, mut v) = start(1, 0, 0b11);
        pend(&mut s, &mut v, k, 0);
        s.release(0);
        let (st, n) = s.get_state();
        check(n == 0 && st.len() == 1 && idx(&st[0].0) == 0, "no qubits and the ground state are left");
        near(st[0].1.re, 1.0, 1e-9, "the empty state has amplitude one");
        near(st[0].1.im, 0.0, 1e-9, "the empty state has amplitude one");
        check(s.allocate() == 0, "identifier zero again");
        let mut v = Ref { n: 1, v: vec![c(1., 0.), c(0., 0.)] };
        g1(&mut s, &mut v, RY, 0);
        same(&mut s, &v, "nothing is left deferred from a released qubit");
    }
    h_s08e {
        // the last qubit left need not be number zero
        let (k, id) = (choice(NPEND), 1 + choice(2));
        let mut s = fresh(3, 0);
        let mut v = Ref { n: 3, v: (0..8).map(|i| c((i == 0) as u8 as f64, 0.)).collect() };
        s.release(0);
        s.release(3 - id);
        pend(&mut s, &mut v, k, id);
        s.release(id);
        for i in 0..3 { check(s.allocate() == i, "the lowest free identifier is allocated"); }
        let mut v = Ref { n: 3, v: (0..8).map(|i| c((i == 0) as u8 as f64, 0.)).collect() };
        match choice(4) { 0 => {} 1 => { s.mcx(&[id], 0); v.ctl(X, 0., &[id], 0); } 2 => check(s.qubit_is_zero(id), "a fresh qubit reads zero"), _ => g1(&mut s, &mut v, RY, id) }
        same(&mut s, &v, "nothing is left deferred from a released qubit");
    }
    h_s08c {
        // identifiers that are not allocated are refused
        let n = choice(4);
        let bad = choice(5);
        let k = choice(3);
        let mut s = fresh(4, 0);
        for i in n..4 { s.release(i); }
        let mut v = Ref { n, v: vec![c(0., 0.); 1 << n] };
        v.v[0] = c(1., 0.);
        if n > 0 { pend(&mut s, &mut v, k, 0); }
        if bad < n { s.release(bad); }
        panic_mode(1);
        s.release(bad);
        must_not_return("releasing an identifier that is not allocated is rejected");
    }
    h_s08d {
        // the released identifier is not allocated any more
        let q = choice(3);
        let op = choice(4);
        let mut s = fresh(3, 1);
        s.release(q);
        panic_mode(1);
        match op { 0 => { let _ = s.measure(q); } 1 => { let _ = s.joint_probability(&[q]); } 2 => { s.swap_qubit_ids(q, (q + 1) % 3); } _ => { s.force_collapse(false, q); } }
        must_not_return("a released identifier is not allocated");
    }
    h_s09a {
        let (k, l, m) = (choice(NPEND), choice(NPEND), choice(3));
        let (mut s, mut v) = start(3, 1, 0b10010110);
        let (a, b) = [(0, 1), (2, 0), (1, 2)][choice(3)];
        let o = 3 - a - b;
        pend(&mut s, &mut v, k, a);
        pend(&mut s, &mut v, l, b);
        pend(&mut s, &mut v, m, o);
        s.swap_qubit_ids(a, b);
        v.swap(a, b);
        let g = [H, RX, RY, X][choice(4)];
        g1(&mut s, &mut v, g, a);
        same(&mut s, &v, "state after a swap of identifiers");
    }
    h_s09b {
        let (a, b) = (choice(4), choice(4));
        let mut s = fresh(3, 0);
        s.release(1);
        let ok = a != 1 && b != 1 && a < 3 && b < 3;
        panic_mode(1);
        if ok { panic_mode(0); s.x(0); }
        s.swap_qubit_ids(a, b);
        if !ok { must_not_return("swapping an unallocated identifier is rejected"); }
        let w = dense(&mut s, 2);
        check(w.v[if a == b { 1 } else { 2 }].re > 0.99, "swapped, or unchanged for equal identifiers");
    }
    h_s10a {
        let (k, l, q, val) = (choice(NPEND), choice(6), choice(2), flag());
        let mask = [0b1111, 0b0110, 0b0011, 0b0101][choice(4)];
        let (mut s, mut v) = start(2, 1, mask);
        pend(&mut s, &mut v, k, q);
        pend(&mut s, &mut v, l, 1 - q);
        let d = draws();
        let p = s.force_collapse(val, q);
        check(draws() == d, "a forced collapse draws no sample");
        let one = v.prob(1 << q);
        let want = if val { one } else { 1.0 - one };
        near(p, want, 1e-7, "probability of the forced value");
        if want.abs() > 1e-10 { v.project(1 << q, val); v.scale(1.0 / want.sqrt()); }
        same(&mut s, &v, "state after a forced collapse");
    }
    h_s11a {
        // a qubit named twice in a controlled gate
        let g = choice(NMC) as u32;
        let pat = choice(4);
        let (k, l) = (choice(6), choice(3));
        let th = if g >= RX && g <= PH { let t = real(-3., 3.); assume(t > 1e-3 || t < -1e-3); t } else { 0. };
        let (mut s, mut v) = start(2, 1, 0b1011);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        panic_mode(1);
        match pat {
            0 => mcgate(&mut s, g, th, &[0], 0),
            1 => mcgate(&mut s, g, th, &[1, 1], 0),
            2 => mcgate(&mut s, g, th, &[1, 0], 0),
            _ => mcgate(&mut s, g, th, &[0, 1], 0),
        }
        let _ = s.get_state();
        must_not_return("a controlled gate that names a qubit twice is rejected");
    }
    h_s11b {
        // a qubit named twice in the operations with qubit lists
        let op = choice(9);
        let (k, l) = (choice(3), choice(3));
        let (mut s, mut v) = start(3, 1, 0b10010110);
        pend(&mut s, &mut v, k, 0);
        pend(&mut s, &mut v, l, 1);
        let a = Array2::from_shape_fn((2, 2), |(i, j)| c((i != j) as u32 as f64, 0.));
        let b = Array2::from_shape_fn((4, 4), |(i, j)| c((i == 3 - j) as u32 as f64, 0.));
        let ps = paulis(choice(16), 2).0;
        panic_mode(1);
        match op {
            0 => { let _ = s.joint_measure(&[0, 1, 0]); }
            1 => { let _ = s.joint_probability(&[1, 1]); }
            2 => s.apply(&b, &[1, 1], None),
            3 => s.apply(&a, &[0], Some(&[0])),
            4 => s.apply(&a, &[0], Some(&[1, 1])),
            5 => s.exp(&ps, 0.3, &[1, 1]),
            6 => s.mcexp(&[0, 0], &ps, 0.3, &[1, 2]),
            7 => s.mcexp(&[1], &ps, 0.3, &[0, 1]),
            _ => s.mcexp(&[2, 0], &ps, 0.3, &[0, 1]),
        }
        let _ = s.get_state();
        must_not_return("an operation that names a qubit twice is rejected");
    }
    h_s11c {
        // identifiers that are not allocated
        let op = choice(14);
        let bad = [1, 3, 70][choice(3)];
        let k = choice(3);
        let mut s = fresh(3, 1);
        s.release(1);
        let mut v = Ref { n: 2, v: vec![c(1., 0.), c(0., 0.), c(0., 0.), c(0., 0.)] };
        pend(&mut s, &mut v, k, 0);
        let a = Array2::from_shape_fn((2, 2), |(i, j)| c((i != j) as u32 as f64, 0.));
        let ps = paulis(choice(16), 2).0;
        panic_mode(1);
        match op {
            0 => { let _ = s.measure(bad); }
            1 => { let _ = s.joint_measure(&[0, bad]); }
            2 => { let _ = s.joint_probability(&[bad, 2]); }
            3 => { s.force_collapse(true, bad); }
            4 => s.swap_qubit_ids(bad, 0),
            5 => s.swap_qubit_ids(2, bad),
            6 => s.apply(&a, &[bad], None),
            7 => s.apply(&a, &[0], Some(&[bad])),
            8 => s.mcphase(&[bad], c(0., 1.), 0),
            9 => s.mcphase(&[2], c(0., 1.), bad),
            10 => s.mch(&[bad], 0),
            11 => s.mch(&[0], bad),
            12 => s.mcexp(&[bad], &ps, 0.3, &[0, 2]),
            _ => s.exp(&ps, 0.3, &[bad, 2]),
        }
        must_not_return("an operation on an unallocated identifier is rejected");
    }
    h_s12a {
        // the snapshot of a known state, whatever the internal placement
        let hist = choice(6);
        let mask = [0b10110101, 0b01101110, 0b00010010][choice(3)];
        let k = choice(NPEND);
        let q = choice(3);
        let mut s = fresh(5, 0);
        // leave three live qubits with different placements
        let ids = match hist {
            0 => { s.release(3); s.release(4); [0, 1, 2] }
            1 => { s.release(0); s.release(2); [1, 3, 4] }
            2 => { s.swap_qubit_ids(0, 4); s.release(0); s.release(3); [1, 2, 4] }
            3 => { s.release(1); s.release(2); s.swap_qubit_ids(0, 3); [0, 3, 4] }
            4 => { s.release(0); let a = s.allocate(); check(a == 0, "identifier zero again"); s.swap_qubit_ids(0, 2); s.swap_qubit_ids(2, 3); s.release(4); s.release(1); [0, 2, 3] }
            _ => { s.release(0); s.release(1); [2, 3, 4] }
        };
        let cnt = (mask as u32).count_ones() as usize;
        let mut a = vec![0.0; 2 * cnt];
        amps(&mut a);
        let mut m = Array2::from_elem((8, 8), c(0., 0.));
        let mut v = Ref { n: 3, v: vec![c(0., 0.); 8] };
        let mut j = 0;
        for i in 0..8 { if mask >> i & 1 == 1 { m[[i, 0]] = c(a[2 * j], a[2 * j + 1]); v.v[i] = m[[i, 0]]; j += 1; } }
        s.apply(&m, &[ids[2], ids[1], ids[0]], None);
        // move the placement away from the order apply leaves
        if hist & 1 == 1 { s.swap_qubit_ids(ids[0], ids[2]); v.swap(0, 2); }
        let th = theta([0, 0, RX, RY][k & 3]);
        let (g, p) = (match k & 3 { 0 => ID, 1 => H, 2 => RX, _ => RY }, if k & 4 != 0 { X } else { ID });
        gate(&mut s, g, th, ids[q]); v.gate(g, th, q);
        gate(&mut s, p, 0., ids[q]); v.gate(p, 0., q);
        let (st, n) = s.get_state();
        check(n == 3, "the number of allocated qubits");
        let mut w = vec![c(0., 0.); 8];
        let mut last = -1i64;
        for (key, amp) in &st {
            let i = idx(key);
            check(i < 8, "index within the allocated qubits");
            check(i as i64 > last, "indexes strictly ascending");
            last = i as i64;
            w[i] = *amp;
        }
        let w = Ref { n: 3, v: w };
        states(&w.flat(), &v.flat(), "snapshot shows the state by identifier");
        // a second snapshot and later operations are the same
        let (st2, n2) = s.get_state();
        check(n2 == n && st2.len() == st.len(), "a snapshot does not change the state");
        gate(&mut s, H, 0., ids[1]); v.gate(H, 0., 1);
        s.mcx(&[ids[0]], ids[2]); v.ctl(X, 0., &[0], 2);
        same(&mut s, &v, "operations after a snapshot");
    }
    h_s12b {
        // more qubits than fit in 64 bits
        let (a, b) = (choice(3), choice(3));
        let n = 70;
        let mut s = fresh(n, 0);
        let pos = [0, 40, 69];
        s.swap_qubit_ids(pos[a], 65);
        s.x(pos[b]);
        s.h(63);
        s.ry(1.0, 2);
        let (st, cnt) = s.get_state();
        check(cnt == n, "the number of allocated qubits");
        check(st.len() == 4, "every non-zero amplitude once");
        let x = num_bigint::BigUint::from(1u32);
        for (i, (key, _)) in st.iter().enumerate() {
            let mut want = x.clone() << pos[b];
            if i & 1 == 1 { want += x.clone() << 2usize; }
            if i & 2 == 2 { want += x.clone() << 63usize; }
            check(*key == want, "index of a wide state");
        }
    }
    h_s12c {
        // dump prints the entries of a snapshot and changes nothing
        let (g, h, k, l) = (choice(12) as u32, choice(4) as u32, choice(3), choice(2));
        let mut s = fresh(3, l);
        let mut r = fresh(3, l);
        for s in [&mut s, &mut r] {
            if k == 2 { s.release(0); }
            s.h(1);
            gate(s, g, 0.7, 1);
            s.mcx(&[1], 2);
            gate(s, [H, RX, RY, X][h as usize], 0.4, 2);
            if k == 1 { s.swap_qubit_ids(0, 1); }
        }
        let t = s.dump();
        let (st, _) = r.get_state();
        let mut want = String::from("STATE: [ ");
        for (key, value) in &st { want += &format!("|{key}\u{27e9}: {value}, "); }
        want += "]\n";
        check(t == want, "dump prints the snapshot");
        s.h(2);
        r.h(2);
        let (x, y) = (s.get_state(), r.get_state());
        check(x.1 == y.1 && x.0.len() == y.0.len(), "operations after a dump");
        for (p, q) in x.0.iter().zip(y.0.iter()) { check(p.0 == q.0, "operations after a dump"); near(p.1.re, q.1.re, 1e-9, "operations after a dump"); near(p.1.im, q.1.im, 1e-9, "operations after a dump"); }
    }
    h_s13a {
        // outcomes are the successive draws of the seeded stream, new or reseeded
        let seed = bits(64);
        let how = choice(4);
        let gs = [choice(4), choice(4)];
        use rand::SeedableRng;
        let mut s = if how == 0 { QuantumSim::new(Some(rand::rngs::StdRng::seed_from_u64(seed))) } else { QuantumSim::new(None) };
        if how >= 1 {
            if how >= 2 { let q = s.allocate(); s.h(q); let _ = s.measure(q); s.release(q); }
            s.set_rng_seed(seed);
            if how == 3 { let r = s.take_rng(); s = QuantumSim::new(Some(r)); }
        }
        for _ in 0..2 { let _ = s.allocate(); }
        let mut v = Ref { n: 2, v: vec![c(1., 0.), c(0., 0.), c(0., 0.), c(0., 0.)] };
        s.h(0); v.gate(H, 0., 0);
        gate(&mut s, [RX, H, RY, T][gs[0]], 0.9, 1); v.gate([RX, H, RY, T][gs[0]], 0.9, 1);
        for i in 0..3u64 {
            let q = (i & 1) as usize;
            let d = draws();
            let r = s.measure(q);
            check(draws() == d + 1, "one draw per measurement");
            let p = v.prob(1 << q);
            check(r == (sample(seed, i + 1) < p), "successive measurements use successive draws of the seeded stream");
            v.project(1 << q, r);
            let n = 1.0 / v.norm_sqr().sqrt();
            v.scale(n);
            g1(&mut s, &mut v, [H, X, S, Y][gs[1]], q);
        }
        same(&mut s, &v, "final state");
    }
    h_s13b {
        // the same seed and program twice
        let seed = bits(64);
        let (g, h, k) = (choice(11) as u32, choice(11) as u32, choice(3));
        let mut out = vec![];
        let mut st = vec![];
        for round in 0..2 {
            let mut s = QuantumSim::new(None);
            if round == 1 { for _ in 0..k { let q = s.allocate(); s.h(q); let _ = s.measure(q); s.release(q); } }
            s.set_rng_seed(seed);
            let (a, b) = (s.allocate(), s.allocate());
            s.h(a);
            gate(&mut s, g, 0.9, a);
            s.mcx(&[a], b);
            out.push(s.measure(a));
            gate(&mut s, h, 0.5, b);
            s.h(b);
            out.push(s.joint_measure(&[b, a]));
            s.release(a);
            s.h(b);
            out.push(s.measure(b));
            st.push(dense(&mut s, 1).flat());
        }
        for i in 0..3 { check(out[i] == out[i + 3], "same seed, same outcomes"); }
        for i in 0..st[0].len() { near(st[0][i], st[1][i], 1e-9, "same seed, same state"); }
    }
    h_s04d {
        // a matrix after a release that leaves a gap in the internal locations
        let ord = choice(6);
        let gone = choice(4);
        let mut s = fresh(4, 0);
        match choice(3) { 1 => s.swap_qubit_ids(gone, 3 - gone), 2 => s.swap_qubit_ids(gone, (gone + 1) % 4), _ => {} }
        s.release(gone);
        let ids: Vec<usize> = (0..4).filter(|i| *i != gone).collect();
        let mut v = Ref { n: 3, v: vec![c(0., 0.); 8] };
        v.v[0] = c(1., 0.);
        for (g, q) in [(RY, 0), (H, 1), (RX, 2)] { let th = theta(g); gate(&mut s, g, th, ids[q]); v.gate(g, th, q); }
        s.mcx(&[ids[0]], ids[2]); v.ctl(X, 0., &[0], 2);
        let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][ord];
        let a = Array2::from_shape_fn((2, 2), |(i, j)| mat(Y, 0.)[i][j]);
        s.apply(&a, &[ids[o[0]]], Some(&[ids[o[1]]]));
        v.ctl(Y, 0., &[o[1]], o[0]);
        same(&mut s, &v, "state after applying a matrix with a gap in the locations");
    }
}
