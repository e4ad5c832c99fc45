//! Long histories: fixed sequences of operations on a pool of values, or on the backend, with a few
//! symbolic bytes or angles.
use super::data::{Arr, SEEN, TABLE, el, val};
use super::gates::*;
use super::refsim::{self, *};
use num_bigint::BigInt;
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::CString;
use std::ptr::null_mut;
use sym::*;

struct Seq(u64);
impl Seq {
    fn new(k: usize) -> Seq { let mut s = Seq(k as u64 * 0x9E37_79B9_7F4A_7C15 + 0x0ddb_a11c_0ffe_e123); for _ in 0..3 { s.n(2); } s }
    fn n(&mut self, m: usize) -> usize { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; ((self.0 >> 20) % m as u64) as usize }
}

#[derive(Clone, Copy, PartialEq)]
enum K { Arr, Tup, Call, Str, Big }
/// a live value: what it reads as, and the references and aliases the program holds
struct O { k: K, p: *const u8, es: usize, b: Vec<u8>, i: i128, refs: i32, al: i32 }
impl O {
    fn new(k: K, p: *const u8, es: usize, b: Vec<u8>, i: i128) -> O { O { k, p, es, b, i, refs: 1, al: 0 } }
    unsafe fn refs(&mut self, n: i32) { self.refs += n; unsafe { match self.k {
        K::Arr => __quantum__rt__array_update_reference_count(self.p.cast(), n),
        K::Tup => __quantum__rt__tuple_update_reference_count(self.p as *mut _, n),
        K::Call => __quantum__rt__callable_update_reference_count(self.p.cast(), n),
        K::Str => __quantum__rt__string_update_reference_count(self.p.cast(), n),
        K::Big => __quantum__rt__bigint_update_reference_count(self.p.cast(), n),
    } } }
    unsafe fn alias(&mut self, n: i32) { self.al += n; unsafe { match self.k {
        K::Arr => __quantum__rt__array_update_alias_count(self.p.cast(), n),
        K::Tup => __quantum__rt__tuple_update_alias_count(self.p as *mut _, n),
        K::Call => __quantum__rt__callable_update_alias_count(self.p.cast(), n),
        _ => self.al -= n,
    } } }
    unsafe fn ok(&self, id: &str) { unsafe { match self.k {
        K::Arr => { check(__quantum__rt__array_get_size_1d(self.p.cast()) as usize * self.es == self.b.len(), id); for (k, x) in self.b.iter().enumerate() { check(*el(self.p.cast(), k / self.es).add(k % self.es) == *x, id); } }
        K::Tup => for (k, x) in self.b.iter().enumerate() { check(*self.p.add(k) == *x, id); },
        K::Call => { SEEN = (9, 9); __quantum__rt__callable_invoke(self.p.cast(), null_mut(), null_mut()); check(SEEN == (self.b[1] as usize, self.b[0] as usize), id); }
        K::Str => { check(__quantum__rt__string_get_length(self.p.cast()) as usize == self.b.len(), id); let d = __quantum__rt__string_get_data(self.p.cast()) as *const u8; for (k, x) in self.b.iter().enumerate() { check(*d.add(k) == *x, id); } check(*d.add(self.b.len()) == 0, id); }
        K::Big => check(val(self.p.cast()) == self.i, id),
    } } }
}
fn byte(r: &mut Seq, sy: &mut usize) -> u8 { if *sy > 0 && r.n(3) == 0 { *sy -= 1; let b = bits(8) as u8; assume(b != 0); b } else { 1 + r.n(250) as u8 } }
unsafe fn make(r: &mut Seq, sy: &mut usize, k: K) -> O { unsafe { match k {
    K::Arr => {
        let (es, n) = ([1, 2, 4, 8][r.n(4)], r.n(5));
        let a = __quantum__rt__array_create_1d(es as u32, n as u64);
        let mut b = vec![0u8; es * n];
        for i in 0..es * n { check(*el(a, i / es).add(i % es) == 0, "a new array is zero-filled"); if r.n(4) > 0 { b[i] = byte(r, sy); *el(a, i / es).add(i % es) = b[i]; } }
        O::new(k, a.cast(), es, b, 0)
    }
    K::Tup => {
        let n = 1 + r.n(12);
        let t = __quantum__rt__tuple_create(n as u64) as *mut u8;
        let mut b = vec![0u8; n];
        for i in 0..n { check(*t.add(i) == 0, "a new tuple is zero"); if r.n(4) > 0 { b[i] = byte(r, sy); *t.add(i) = b[i]; } }
        O::new(k, t, 1, b, 0)
    }
    K::Call => { let b = byte(r, sy); O::new(k, __quantum__rt__callable_create(&raw mut TABLE as *mut *mut u8, null_mut(), b as usize as *mut u8).cast(), 1, vec![b, 0], 0) }
    K::Str => match r.n(3) {
        0 => { let i = [0, -1, 77, -3210, 1 << 40][r.n(5)]; O::new(k, __quantum__rt__int_to_string(i).cast(), 1, i.to_string().into_bytes(), 0) }
        1 => { let t = r.n(2) == 1; O::new(k, __quantum__rt__bool_to_string(t).cast(), 1, if t { b"true".to_vec() } else { b"false".to_vec() }, 0) }
        _ => { let n = r.n(7); let mut b: Vec<u8> = (0..n).map(|_| 1 + byte(r, sy) % 127).collect(); b.push(0); let p = __quantum__rt__string_create(b.as_mut_ptr().cast()); b.pop(); O::new(k, p.cast(), 1, b, 0) }
    },
    K::Big if *sy > 0 && r.n(3) == 0 => { *sy -= 2; let i = [1i64 << 33, -(1 << 62), 0x5_0000_0000][r.n(3)] ^ bits(16) as i64; O::new(k, __quantum__rt__bigint_create_i64(i).cast(), 2, vec![], i as i128) }
    K::Big => { let i = [0i64, 1, -1, 255, -256, 1 << 33, i64::MAX, i64::MIN, -987_654_321_012_345_678][r.n(9)]; O::new(k, __quantum__rt__bigint_create_i64(i).cast(), 1, vec![], i as i128) }
} } }
unsafe fn big2(r: &mut Seq, x: &O, y: &O) -> Option<O> { unsafe {
    let (a, b, p, q) = (x.i, y.i, x.p.cast::<BigInt>(), y.p.cast::<BigInt>());
    let fits = |v: Option<i128>| v.filter(|v| v.unsigned_abs() < 1 << 126);
    let any = x.es | y.es > 1;
    let (w, z) = match r.n(12) {
        3..=6 if any => (None, 0),
        0 | 1 => (fits(a.checked_add(b)), 0),
        2 => (fits(a.checked_sub(b)), 1),
        3 | 4 => (fits(a.checked_mul(b)), 2),
        5 => (if b == 0 { None } else { Some(a / b) }, 3),
        6 => (if b == 0 { None } else { Some(a % b) }, 4),
        7 => (Some(a & b), 5),
        8 => (Some(a | b), 6),
        9 => (Some(a ^ b), 7),
        10 => (Some(-a), 8),
        _ => (Some(!a), 9),
    };
    let w = w?;
    let p = match z {
        0 => __quantum__rt__bigint_add(p, q), 1 => __quantum__rt__bigint_subtract(p, q), 2 => __quantum__rt__bigint_multiply(p, q),
        3 => __quantum__rt__bigint_divide(p, q), 4 => __quantum__rt__bigint_modulus(p, q), 5 => __quantum__rt__bigint_bitand(p, q),
        6 => __quantum__rt__bigint_bitor(p, q), 7 => __quantum__rt__bigint_bitxor(p, q), 8 => __quantum__rt__bigint_negate(p), _ => __quantum__rt__bigint_bitnot(p),
    };
    Some(O::new(K::Big, p.cast(), if any { 2 } else { 1 }, vec![], w))
} }
/// a history over a pool of values of the given kinds
unsafe fn pool(seq: usize, len: usize, kinds: &[K]) { unsafe {
    let mut r = Seq::new(seq);
    let mut sy = if kinds.len() == 1 && kinds[0] == K::Big { 4 } else { [8, 16, 24][seq % 3] };
    let len = if seq % 4 == 0 { 4 * len } else { len };
    heap_mark();
    let mut v: Vec<O> = vec![];
    for _ in 0..2 { let k = kinds[r.n(kinds.len())]; v.push(make(&mut r, &mut sy, k)); }
    for step in 0..len {
        if v.len() < 2 || (v.len() < 8 && r.n(5) == 0) { let k = kinds[r.n(kinds.len())]; let o = make(&mut r, &mut sy, k); check(!v.iter().any(|x| x.p == o.p), "a new value is not a live one"); v.push(o); continue; }
        let (i, j) = (r.n(v.len()), r.n(v.len()));
        let k = v[i].k;
        let op = if v.len() > 9 { 1 } else { r.n(10) };
        match op {
            0 => { let n = 1 + r.n(3) as i32; v[i].refs(n); }
            1 => {
                // some references go, and the value with the last of them
                let n = 1 + r.n(v[i].refs as usize) as i32;
                let n = if v.len() > 9 { v[i].refs } else { n };
                if n == v[i].refs { let al = v[i].al; if al > 0 { v[i].alias(-al); } v[i].refs(-n); v.remove(i); } else { v[i].refs(-n); }
            }
            2 => { let n = 1 + r.n(2) as i32; v[i].alias(n); }
            3 => if v[i].al > 0 { let n = 1 + r.n(v[i].al as usize) as i32; v[i].alias(-n); },
            4 | 5 if matches!(k, K::Arr | K::Tup | K::Call) => {
                let force = op == 4 && (k != K::Tup || true);
                let p = match k { K::Arr => __quantum__rt__array_copy(v[i].p.cast(), force) as *const u8, K::Tup => __quantum__rt__tuple_copy(v[i].p as *mut _, force) as *const u8, _ => __quantum__rt__callable_copy(v[i].p.cast(), force) as *const u8 };
                if force || v[i].al > 0 { check(!v.iter().any(|x| x.p == p), "with force or aliases another value is returned"); let (es, b) = (v[i].es, v[i].b.clone()); v.push(O::new(k, p, es, b, 0)); }
                else { check(p == v[i].p, "without force or aliases the same value is returned"); v[i].refs += 1; }
            }
            6 if k == K::Arr && v[j].k == K::Arr && v[i].es == v[j].es && v[i].b.len() + v[j].b.len() < 96 => {
                let p = __quantum__rt__array_concatenate(v[i].p.cast(), v[j].p.cast());
                let mut b = v[i].b.clone(); b.extend(&v[j].b);
                let es = v[i].es;
                v.push(O::new(k, p.cast(), es, b, 0));
            }
            7 if k == K::Arr && v[i].b.len() > 0 => {
                let n = (v[i].b.len() / v[i].es) as i64;
                let step = [1, 2, -1, -2, 3][r.n(5)];
                let (a, z) = (r.n(n as usize) as i64, r.n(n as usize) as i64);
                let p = quantum__rt__array_slice_1d(v[i].p.cast(), Range { start: a, step, end: z });
                let (es, mut b, mut x) = (v[i].es, vec![], a);
                while if step > 0 { x <= z } else { x >= z } { b.extend_from_slice(&v[i].b[x as usize * es..(x as usize + 1) * es]); x += step; }
                v.push(O::new(k, p.cast(), es, b, 0));
            }
            6 | 7 if k == K::Str && v[j].k == K::Str => {
                if op == 7 || v[i].b.len() + v[j].b.len() > 60 { check(__quantum__rt__string_equal(v[i].p.cast(), v[j].p.cast()) == (v[i].b == v[j].b), "strings are equal when their bytes are"); }
                else { let p = __quantum__rt__string_concatenate(v[i].p.cast(), v[j].p.cast()); let mut b = v[i].b.clone(); b.extend(&v[j].b); v.push(O::new(k, p.cast(), 1, b, 0)); }
            }
            4..=7 if k == K::Big && v[j].k == K::Big => {
                if op == 4 {
                    let (p, q, a, b) = (v[i].p.cast(), v[j].p.cast(), v[i].i, v[j].i);
                    check(__quantum__rt__bigint_equal(p, q) == (a == b) && __quantum__rt__bigint_greater(p, q) == (a > b) && __quantum__rt__bigint_greater_eq(p, q) == (a >= b), "comparisons agree with the values");
                } else if let Some(o) = big2(&mut r, &v[i], &v[j]) { v.push(o); }
            }
            _ => {
                // change a value in place
                let n = v[i].b.len();
                match k {
                    K::Arr if n > 0 => { let (at, x) = (r.n(n), byte(&mut r, &mut sy)); let es = v[i].es; *el(v[i].p.cast(), at / es).add(at % es) = x; v[i].b[at] = x; }
                    K::Tup => { let (at, x) = (r.n(n), byte(&mut r, &mut sy)); *(v[i].p as *mut u8).add(at) = x; v[i].b[at] = x; }
                    K::Call => { __quantum__rt__callable_make_adjoint(v[i].p.cast()); v[i].b[1] ^= 1; }
                    _ => {}
                }
            }
        }
        if step % 5 == 0 { for o in &v { o.ok("every live value reads as last written"); } } else if let Some(o) = v.last() { o.ok("a new value has its contents"); }
    }
    while !v.is_empty() {
        for o in &v { o.ok("every live value reads as last written"); }
        let i = r.n(v.len());
        let mut o = v.swap_remove(i);
        let (al, n) = (o.al, o.refs);
        if r.n(2) == 0 { if al > 0 { o.alias(-al); } o.refs(-n); } else { for _ in 0..n { if o.al > 0 { o.alias(-1); } if o.refs == 1 && o.al > 0 { let al = o.al; o.alias(-al); } o.refs(-1); } }
    }
    drop(v);
    heap_check("all memory is returned once every value is released");
} }
/// a history of quantum operations; kinds: bit 0 gates, 1 gates on several qubits, 2 controlled gates,
/// 3 exponentials, 4 measurements and resets, 5 reads and writes of results
unsafe fn run(seq: usize, len: usize, kinds: usize, what: &str) { unsafe {
    let mut r = Seq::new(seq);
    let len = if seq % 3 == 0 { 4 * len } else { len };
    let mut v = entangled(2 + seq % 2);
    let ids = [0usize, 1, 5, 64];
    let mut m = [false; 4];
    let ks: Vec<usize> = (0..6).filter(|i| kinds >> i & 1 == 1).collect();
    let (mut used, mut sy) = (0, 1 - seq % 2);
    for step in 0..len {
        let n = v.n.max(2 + r.n(3)).min(4);
        let a = r.n(n);
        let b = (a + 1 + r.n(n - 1)) % n;
        let d = (0..3).find(|x| *x != a && *x != b).unwrap();
        let th = if sy > 0 && r.n(len) < 2 { sy -= 1; angle() } else { [0.5 * std::f64::consts::PI, std::f64::consts::PI, -0.25 * std::f64::consts::PI, 0.37, 2.5, -1.1][r.n(6)] };
        match if r.n(3) == 0 { ks[0] } else { ks[r.n(ks.len())] } {
            0 => { let k = r.n(NB1); if k != 12 && k != 16 { body1_by(&mut v, k, a, th); } }
            1 => { let k = r.n(NB2); if k == 4 { reach(&mut v, d); } body2_by(&mut v, k, a, b, d, th); }
            2 => { let k = r.n(NCT); if r.n(4) == 0 && v.n > 2 { ctl(&mut v, k, &[b, d], a, th); } else { ctl(&mut v, k, &[b], a, th); } }
            3 => { let k = r.n(4); let ps = code(1 + r.n(15), 2); if k < 2 { expo(&mut v, k, &[], &ps, &[a, b], th); } else { expo(&mut v, k, &[d], &ps, &[a, b], th); } }
            4 => {
                reach(&mut v, a);
                let (op, x) = (r.n(4), r.n(4));
                let d = draws();
                used += 1;
                let u = sample(SEED, used);
                let res = match op {
                    0 => { __quantum__qis__mz__body(q(a), q(ids[x])); __quantum__rt__read_result(q(ids[x])) }
                    1 => { __quantum__qis__mresetz__body(q(a), q(ids[x])); __quantum__rt__read_result(q(ids[x])) }
                    2 => __quantum__rt__result_equal(__quantum__qis__m__body(q(a)), __quantum__rt__result_get_one()),
                    _ => { let p = v.prob(1 << a); __quantum__qis__reset__body(q(a)); u < p }
                };
                if op < 2 { m[x] = res; }
                check(draws() == d + 1, "one sample is drawn per measurement");
                born(&mut v, a, res, u);
                if op & 1 == 1 && res { v.gate(X, 0., a); }
            }
            _ => { let x = r.n(4); if r.n(2) == 0 { let b = r.n(2) == 1; __quantum__rt__write_result(b, q(ids[x])); m[x] = b; } else { check(__quantum__qis__read_result__body(q(ids[x])) == m[x], "the value last stored"); } }
        }
        for x in 0..4 { if step % 4 == 0 { check(__quantum__rt__read_result(q(ids[x])) == m[x], "the value last stored, or false"); } }
    }
    refsim_same(&v, what);
} }
fn refsim_same(v: &Ref, what: &str) { same(v, what) }
fn pools() -> usize { if thorough() { 960 } else { 96 } }
fn steps() -> usize { if thorough() { 300 } else { 120 } }
fn many() -> usize { if thorough() { 240 } else { 24 } }

entries! {
    h_g01 { let k = choice(pools()); pool(k, steps(), &[K::Arr]) }
    h_g02 { let k = choice(pools()); pool(k, steps(), &[K::Arr, K::Tup, K::Call]) }
    h_g04 { let k = choice(pools()); pool(k, steps(), &[K::Arr, K::Tup, K::Call, K::Str, K::Big]) }
    h_g05 { let k = choice(pools()); pool(k, steps(), &[K::Call, K::Tup]) }
    h_g07 { let k = choice(pools()); pool(k, steps(), &[K::Big]) }
    h_g09 { let k = choice(pools()); pool(k, steps(), &[K::Str]) }
    h_q01 { let k = choice(many()); run(k, if thorough() { 24 } else { 14 }, 7, "state after a long program of gates") }
    h_q02 { let k = choice(many()); run(k, if thorough() { 24 } else { 14 }, 9, "state after a long program with exponentials") }
    h_q05 { let k = choice(many()); run(k, if thorough() { 16 } else { 10 }, 0x33, "state after a long program with measurements") }
}
