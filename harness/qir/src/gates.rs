//! The quantum instruction set and the state behind it, through the functions a QIR program calls.
use super::data::{Arr, el};
use super::refsim::{self, *};
use num_complex::Complex64;
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::c_void;
use std::ptr::null_mut;
use sym::*;

type Q = *mut c_void;
pub fn q(i: usize) -> Q { i as Q }
pub const SEED: u64 = 9;
pub fn begin() { set_rng_seed(SEED); __quantum__rt__initialize(null_mut()); }
pub fn draws() -> u64 { rand::draws() }
fn idx(k: &num_bigint::BigUint) -> usize { let d = k.to_u64_digits(); match d.len() { 0 => 0, 1 => d[0] as usize, _ => usize::MAX } }
/// the backend's state as a dense vector over exactly n qubits
pub fn dense(n: usize) -> Ref {
    let (st, cnt) = capture_quantum_state();
    check(cnt == n, "number of qubits in the state");
    let mut v = vec![c(0., 0.); 1 << n];
    for (k, a) in st { let i = idx(&k); check(i < v.len(), "basis index out of range"); v[i] = v[i] + a; }
    Ref { n, v }
}
pub fn same(v: &Ref, id: &str) { let w = dense(v.n); states(&w.flat(), &v.flat(), id); }
fn zero(n: usize) -> Ref { let mut v = vec![c(0., 0.); 1 << n]; v[0] = c(1., 0.); Ref { n, v } }
/// the reference grows when an identifier beyond its qubits is used
pub fn reach(v: &mut Ref, i: usize) { while v.n <= i { let n = v.n; v.insert(n); } }
/// the identity may or may not bring its qubit into being
fn maybe(v: &mut Ref, i: usize) { let n = capture_quantum_state().1; if n == i + 1 { reach(v, i); } }
fn ry(v: &mut Ref, th: f64, i: usize) { reach(v, i); __quantum__qis__ry__body(th, q(i)); v.gate(RY, th, i); }
fn cx(v: &mut Ref, a: usize, b: usize) { reach(v, a.max(b)); __quantum__qis__cnot__body(q(a), q(b)); v.ctl(X, 0., &[a], b); }
/// n qubits in an entangled state with symbolic angles
pub fn entangled(n: usize) -> Ref {
    begin();
    let mut v = zero(0);
    ry(&mut v, angle(), 0);
    if n > 1 { cx(&mut v, 0, 1); __quantum__qis__t__body(q(1)); v.gate(T, 0., 1); }
    if n > 2 { ry(&mut v, angle(), 2); }
    v
}
/// leave work pending
fn pend(v: &mut Ref, k: usize, i: usize) {
    if k > 0 { reach(v, i); }
    match k {
        1 => { __quantum__qis__h__body(q(i)); v.gate(H, 0., i); }
        2 => { let th = angle(); __quantum__qis__rx__body(th, q(i)); v.gate(RX, th, i); }
        3 => { let th = angle(); __quantum__qis__ry__body(th, q(i)); v.gate(RY, th, i); }
        _ => {}
    }
}
pub unsafe fn qubits(ids: &[usize]) -> Arr { unsafe { let a = __quantum__rt__array_create_1d(8, ids.len() as u64); for (i, x) in ids.iter().enumerate() { *el(a, i).cast::<usize>() = *x; } a } }
unsafe fn paulis(ps: &[u32]) -> Arr { unsafe { let a = __quantum__rt__array_create_1d(1, ps.len() as u64); for (i, x) in ps.iter().enumerate() { *el(a, i) = *x as u8; } a } }
unsafe fn unchanged_q(a: Arr, ids: &[usize]) { unsafe { check(__quantum__rt__array_get_size_1d(a) as usize == ids.len(), "the array of qubits keeps its length"); for (i, x) in ids.iter().enumerate() { check(*el(a, i).cast::<usize>() == *x, "the array of qubits is left as it was"); } } }
unsafe fn unchanged_p(a: Arr, ps: &[u32]) { unsafe { check(__quantum__rt__array_get_size_1d(a) as usize == ps.len(), "the array of Paulis keeps its length"); for (i, x) in ps.iter().enumerate() { check(*el(a, i) as u32 == *x, "the array of Paulis is left as it was"); } } }
unsafe fn drop_arr(a: Arr) { unsafe { __quantum__rt__array_update_reference_count(a, -1); } }
fn pauli(k: u32) -> Pauli { match k { 0 => Pauli::I, 1 => Pauli::X, 2 => Pauli::Z, _ => Pauli::Y } }
/// rotation exp(-i th/2 P) on qubit t under controls
fn rot(v: &mut Ref, p: u32, th: f64, ctls: &[usize], t: usize) {
    match p { 1 => v.ctl(RX, th, ctls, t), 2 => v.ctl(RZ, th, ctls, t), 3 => v.ctl(RY, th, ctls, t), _ => v.exp(ctls, &[], -th / 2.) }
}
pub fn code(k: usize, n: usize) -> Vec<u32> { (0..n).map(|i| (k >> (2 * i) & 3) as u32).collect() }
/// the Pauli product applied to the state
fn pauli_apply(v: &Ref, ids: &[usize], ps: &[u32]) -> Ref {
    let mut p = v.clone();
    for (i, g) in ids.iter().zip(ps) { match g { 1 => p.gate(X, 0., *i), 2 => p.gate(Z, 0., *i), 3 => p.gate(Y, 0., *i), _ => {} } }
    p
}
/// the part of the state on which the Pauli product reads val
fn eigen(v: &Ref, ids: &[usize], ps: &[u32], val: bool) -> Ref {
    let p = pauli_apply(v, ids, ps);
    let k = if val { -0.5 } else { 0.5 };
    Ref { n: v.n, v: v.v.iter().zip(&p.v).map(|(a, b)| a * 0.5 + b * k).collect() }
}
fn perms(n: usize, k: usize) -> Vec<usize> {
    // k-th injection of slots into identifiers
    match (n, k) { (1, k) => vec![k], (2, k) => [[0, 1], [1, 0], [2, 0], [0, 2], [1, 2], [2, 1]][k].to_vec(), (_, k) => [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][k].to_vec() }
}

pub const NB1: usize = 20;
pub fn body1(v: &mut Ref, k: usize, i: usize) { let th = if k >= 9 { angle() } else { 0. }; body1_by(v, k, i, th) }
pub fn body1_by(v: &mut Ref, k: usize, i: usize, th: f64) {
    if k != 12 && k != 16 { reach(v, i); }
    let t = q(i);
    match k {
        0 => { __quantum__qis__h__body(t); v.gate(H, 0., i) }
        1 => { __quantum__qis__s__body(t); v.gate(S, 0., i) }
        2 => { __quantum__qis__s__adj(t); v.gate(SA, 0., i) }
        3 => { __quantum__qis__t__body(t); v.gate(T, 0., i) }
        4 => { __quantum__qis__t__adj(t); v.gate(TA, 0., i) }
        5 => { __quantum__qis__x__body(t); v.gate(X, 0., i) }
        6 => { __quantum__qis__y__body(t); v.gate(Y, 0., i) }
        7 => { __quantum__qis__z__body(t); v.gate(Z, 0., i) }
        // the square root of X
        8 => { __quantum__qis__sx__body(t); let (a, b) = (c(0.5, 0.5), c(0.5, -0.5)); v.cgate(0, &[[a, b], [b, a]], i) }
        9 => { __quantum__qis__rx__body(th, t); v.gate(RX, th, i) }
        10 => { __quantum__qis__ry__body(th, t); v.gate(RY, th, i) }
        11 => { __quantum__qis__rz__body(th, t); v.gate(RZ, th, i) }
        12..=15 => { let p = k as u32 - 12; __quantum__qis__r__body(pauli(p), th, t); if p > 0 { rot(v, p, th, &[], i) } else { maybe(v, i) } }
        _ => { let p = k as u32 - 16; __quantum__qis__r__adj(pauli(p), th, t); if p > 0 { rot(v, p, -th, &[], i) } else { maybe(v, i) } }
    }
}
pub const NB2: usize = 9;
pub fn body2(v: &mut Ref, k: usize, a: usize, b: usize, d: usize) { let th = if k >= 6 { angle() } else { 0. }; body2_by(v, k, a, b, d, th) }
pub fn body2_by(v: &mut Ref, k: usize, a: usize, b: usize, d: usize, th: f64) {
    reach(v, a); reach(v, b);
    let (x, y) = (q(a), q(b));
    match k {
        0 => { __quantum__qis__cnot__body(x, y); v.ctl(X, 0., &[a], b) }
        1 => { __quantum__qis__cx__body(x, y); v.ctl(X, 0., &[a], b) }
        2 => { __quantum__qis__cy__body(x, y); v.ctl(Y, 0., &[a], b) }
        3 => { __quantum__qis__cz__body(x, y); v.ctl(Z, 0., &[a], b) }
        4 => { reach(v, d); __quantum__qis__ccx__body(x, y, q(d)); v.ctl(X, 0., &[a, b], d) }
        5 => { __quantum__qis__swap__body(x, y); v.swap(a, b) }
        6 => { __quantum__qis__rxx__body(th, x, y); v.exp(&[], &[(a, 1), (b, 1)], -th / 2.) }
        7 => { __quantum__qis__ryy__body(th, x, y); v.exp(&[], &[(a, 3), (b, 3)], -th / 2.) }
        _ => { __quantum__qis__rzz__body(th, x, y); v.exp(&[], &[(a, 2), (b, 2)], -th / 2.) }
    }
}
pub const NCT: usize = 19;
#[repr(C)] #[derive(Clone, Copy)] struct RotArgs { th: f64, t: Q }
#[repr(C)] #[derive(Clone, Copy)] struct PRotArgs { p: i8, th: f64, t: Q }
/// the controlled operation k; th is only used by rotations
pub unsafe fn ctl(v: &mut Ref, k: usize, cs: &[usize], t: usize, th: f64) { unsafe {
    let nothing = cs.is_empty() && (k == 11 || k == 15);
    if !nothing { reach(v, t); }
    for x in cs { reach(v, *x); }
    let a = qubits(cs);
    match k {
        0 => { __quantum__qis__h__ctl(a, q(t)); v.ctl(H, 0., cs, t) }
        1 => { __quantum__qis__s__ctl(a, q(t)); v.ctl(S, 0., cs, t) }
        2 => { __quantum__qis__s__ctladj(a, q(t)); v.ctl(SA, 0., cs, t) }
        3 => { __quantum__qis__t__ctl(a, q(t)); v.ctl(T, 0., cs, t) }
        4 => { __quantum__qis__t__ctladj(a, q(t)); v.ctl(TA, 0., cs, t) }
        5 => { __quantum__qis__x__ctl(a, q(t)); v.ctl(X, 0., cs, t) }
        6 => { __quantum__qis__y__ctl(a, q(t)); v.ctl(Y, 0., cs, t) }
        7 => { __quantum__qis__z__ctl(a, q(t)); v.ctl(Z, 0., cs, t) }
        8..=10 => {
            let u = __quantum__rt__tuple_create(16);
            *u.cast::<RotArgs>() = RotArgs { th, t: q(t) };
            match k { 8 => __quantum__qis__rx__ctl(a, u), 9 => __quantum__qis__ry__ctl(a, u), _ => __quantum__qis__rz__ctl(a, u) }
            let r = *u.cast::<RotArgs>();
            check(r.th.to_bits() == th.to_bits() && r.t as usize == t, "the argument tuple is left as it was");
            __quantum__rt__tuple_update_reference_count(u, -1);
            rot(v, [1, 3, 2][k - 8], th, cs, t)
        }
        _ => {
            let p = (k as u32 - 11) & 3;
            let adj = k >= 15;
            let u = __quantum__rt__tuple_create(24);
            *u.cast::<PRotArgs>() = PRotArgs { p: p as i8, th, t: q(t) };
            if adj { __quantum__qis__r__ctladj(a, u) } else { __quantum__qis__r__ctl(a, u) }
            let r = *u.cast::<PRotArgs>();
            check(r.p as u32 == p && r.th.to_bits() == th.to_bits() && r.t as usize == t, "the argument tuple is left as it was");
            __quantum__rt__tuple_update_reference_count(u, -1);
            if nothing { maybe(v, t) } else { rot(v, p, if adj { -th } else { th }, cs, t) }
        }
    }
    unchanged_q(a, cs);
    drop_arr(a);
} }
#[repr(C)] #[derive(Clone, Copy)] struct ExpArgs { p: Arr, th: f64, t: Arr }
/// exponential of a Pauli product: exp(i th P)
pub unsafe fn expo(v: &mut Ref, k: usize, cs: &[usize], ps: &[u32], ts: &[usize], th: f64) { unsafe {
    for x in cs { reach(v, *x); }
    for x in ts { reach(v, *x); }
    let (a, b) = (paulis(ps), qubits(ts));
    let w: Vec<(usize, u32)> = ts.iter().copied().zip(ps.iter().copied()).collect();
    match k {
        0 => __quantum__qis__exp__body(a, th, b),
        1 => __quantum__qis__exp__adj(a, th, b),
        _ => {
            let u = __quantum__rt__tuple_create(24);
            let e = qubits(cs);
            *u.cast::<ExpArgs>() = ExpArgs { p: a, th, t: b };
            if k == 2 { __quantum__qis__exp__ctl(e, u) } else { __quantum__qis__exp__ctladj(e, u) }
            let r = *u.cast::<ExpArgs>();
            check(r.p == a && r.t == b && r.th.to_bits() == th.to_bits(), "the argument tuple is left as it was");
            unchanged_q(e, cs);
            drop_arr(e);
            __quantum__rt__tuple_update_reference_count(u, -1);
        }
    }
    v.exp(if k < 2 { &[] } else { cs }, &w, if k & 1 == 1 { -th } else { th });
    unchanged_p(a, ps);
    unchanged_q(b, ts);
    drop_arr(a);
    drop_arr(b);
} }
/// run f twice from scratch: nothing may pile up
unsafe fn no_leak(f: &dyn Fn()) {
    begin();
    f();
    begin();
    let a = live();
    f();
    begin();
    check(live() == a, "nothing is left on the heap by the operation");
}
/// a measured outcome against the sample, reference projected
pub fn born(v: &mut Ref, i: usize, res: bool, u: f64) {
    let p = v.prob(1 << i);
    check(res == (u < p), "the outcome is 1 exactly when the sample is below the probability of 1");
    let k = if res { p } else { 1.0 - p };
    v.project(1 << i, res);
    v.scale(1.0 / k.sqrt());
}

entries! {
    h_b01a {
        let k = choice(NB1);
        let mut v = entangled(2);
        let i = choice(4);
        pend(&mut v, choice(4), if i < 2 { i } else { 0 });
        body1(&mut v, k, i);
        if flag() { body1(&mut v, 0, 0); }
        same(&v, "state after a gate");
    }
    h_b01b {
        let k = choice(NB2);
        let w = choice(6);
        let mut v = entangled(3);
        let p = perms(3, w);
        // identifiers that were not used before come into being in |0>
        let far = choice(4);
        let mut z = [p[0], p[1], p[2]];
        if far < 3 { z[far] = 3 + choice(2); }
        pend(&mut v, choice(4), z[0]);
        pend(&mut v, if thorough() { choice(4) } else { choice(2) }, z[1]);
        body2(&mut v, k, z[0], z[1], z[2]);
        same(&v, "state after a gate on several qubits");
    }
    h_b01c {
        let k = choice(NCT);
        let n = choice(3);
        let w = choice(if n == 0 { 3 } else { 6 });
        let mut v = entangled(3);
        let mut p = perms(n + 1, w);
        let far = choice(n + 2);
        if far <= n { p[far] = 3 }
        let t = p.pop().unwrap();
        pend(&mut v, choice(4), t);
        if n > 0 { pend(&mut v, choice(2), p[0]); }
        ctl(&mut v, k, &p, t, if k >= 8 { angle() } else { 0. });
        same(&v, "state after a controlled gate");
    }
    h_b01d {
        // nothing is left behind by a controlled operation
        let k = choice(NCT);
        let n = choice(3);
        no_leak(&|| { let mut v = zero(0); ctl(&mut v, k, &[0, 1][..n], 2, 0.3); });
    }
    h_b02a {
        let k = choice(4);
        let n = 1 + choice(if thorough() { 3 } else { 2 });
        let ps = code(choice(1 << 2 * n), n);
        let nc = if k < 2 { 0 } else { choice(3) };
        let w = choice(2);
        let mut v = entangled(3);
        let ids = [[0, 1, 2, 3, 4], [2, 0, 3, 1, 4]][w];
        pend(&mut v, choice(4), ids[0]);
        pend(&mut v, choice(2), ids[1]);
        let th = angle();
        expo(&mut v, k, &ids[n..n + nc], &ps, &ids[..n], th);
        same(&v, "state after the exponential of a Pauli product");
    }
    h_b02b {
        let k = choice(4);
        let ps = code(choice(16), 2);
        no_leak(&|| { let mut v = zero(0); expo(&mut v, k, &[2], &ps, &[0, 1], 0.3); });
    }
    h_b03a {
        // 4 + 16 + 64 Pauli strings
        let k = choice(84);
        let (k, n) = if k < 64 { (k, 3) } else if k < 80 { (k - 64, 2) } else { (k - 80, 1) };
        let ps = code(k, n);
        let w = choice(2);
        let mut v = entangled(3);
        let ids = &[[0, 1, 2], [2, 0, 3]][w][..n];
        pend(&mut v, choice(4), ids[0]);
        if n > 1 { pend(&mut v, choice(2), ids[1]); }
        let (a, b) = (paulis(&ps), qubits(ids));
        let d = draws();
        let r = __quantum__qis__measure__body(a, b);
        check(draws() == d + 1, "one sample is drawn per measurement");
        let one = __quantum__rt__result_equal(r, __quantum__rt__result_get_one());
        check(one || __quantum__rt__result_equal(r, __quantum__rt__result_get_zero()), "a result is One or Zero");
        // identifiers paired with I are not touched
        for (i, p) in ids.iter().zip(&ps) { if *p != 0 { reach(&mut v, *i); } }
        let (i2, p2): (Vec<usize>, Vec<u32>) = ids.iter().zip(&ps).filter(|(_, p)| **p != 0).map(|(i, p)| (*i, *p)).unzip();
        let odd = eigen(&v, &i2, &p2, true);
        let p = odd.norm_sqr();
        let u = sample(SEED, 1);
        check(one == (u < p), "the outcome is One exactly when the sample is below its probability");
        let mut e = eigen(&v, &i2, &p2, one);
        e.scale(1.0 / (if one { p } else { 1.0 - p }).sqrt());
        unchanged_p(a, &ps);
        unchanged_q(b, ids);
        drop_arr(a); drop_arr(b);
        same(&e, "state after a joint measurement");
    }
    h_b03b {
        // arrays of different lengths
        let (n, m) = (choice(4), choice(4));
        let what = flag();
        if n == m { assume(false); }
        let mut v = entangled(3);
        OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
        let (a, b) = (paulis(&code(choice(3) * 21, n)), qubits(&[0, 1, 2][..m]));
        panic_mode(1);
        if what { __quantum__qis__measure__body(a, b); } else { let m = c"different"; __quantum__qis__assertmeasurementprobability__body(a, b, __quantum__rt__result_get_zero(), real(0.0, 1.0), &m.to_owned(), 2.0); }
        must_not_return("arrays of different lengths are refused");
    }
    h_b03c {
        let ps = code(choice(16), 2);
        no_leak(&|| unsafe {
            let (a, b) = (paulis(&ps), qubits(&[0, 1]));
            __quantum__qis__ry__body(0.4, q(0));
            let m = c"different".to_owned();
            __quantum__qis__assertmeasurementprobability__body(a, b, __quantum__rt__result_get_zero(), 0.5, &m, 2.0);
            drop_arr(a); drop_arr(b);
        });
    }
    h_b04a {
        let n = 1 + choice(2);
        let ps = code(choice(1 << 2 * n), n);
        let w = choice(2);
        let one = flag();
        let via = flag();
        let mut v = entangled(if thorough() { 3 } else { 2 });
        OUTPUT.with(|o| o.borrow_mut().use_std_out(false));
        let ids = &[[0, 1], [2, 0]][w][..n];
        pend(&mut v, choice(4), ids[0]);
        for (i, p) in ids.iter().zip(&ps) { if *p != 0 { reach(&mut v, *i); } }
        let (i2, p2): (Vec<usize>, Vec<u32>) = ids.iter().zip(&ps).filter(|(_, p)| **p != 0).map(|(i, p)| (*i, *p)).unzip();
        let p = eigen(&v, &i2, &p2, one).norm_sqr();
        let want = real(-1.0, 2.0);
        let tol = real(0.001, 1.0);
        let off = (p - want).abs();
        let fails = off > tol;
        let (a, b) = (paulis(&ps), qubits(ids));
        let m = c"different".to_owned();
        let r = if one { __quantum__rt__result_get_one() } else { __quantum__rt__result_get_zero() };
        if fails { panic_mode(1); }
        if via {
            #[repr(C)] struct Args { a: Arr, b: Arr, r: Q, p: f64, m: *const std::ffi::CString, t: f64 }
            let u = __quantum__rt__tuple_create(48);
            u.cast::<Args>().write(Args { a, b, r, p: want, m: &m, t: tol });
            let e = qubits(&[1]);
            __quantum__qis__assertmeasurementprobability__ctl(e, u);
            drop_arr(e);
            __quantum__rt__tuple_update_reference_count(u, -1);
        } else { __quantum__qis__assertmeasurementprobability__body(a, b, r, want, &m, tol); }
        if fails { must_not_return("a probability outside the tolerance is reported"); }
        check(draws() == 0, "no sample is drawn by an assertion");
        unchanged_p(a, &ps);
        unchanged_q(b, ids);
        drop_arr(a); drop_arr(b);
        same(&v, "an assertion leaves the state as it was");
    }
    h_b05a {
        let op = choice(4);
        let i = choice(4);
        let id = [0, 3, 64][choice(3)];
        let mut v = entangled(2);
        // values stored before
        let (w, b) = (flag(), flag());
        __quantum__rt__write_result(w, q(1));
        __quantum__rt__write_result(b, q(id));
        pend(&mut v, choice(4), i);
        reach(&mut v, i);
        let d = draws();
        let res = match op {
            0 => { __quantum__qis__mz__body(q(i), q(id)); __quantum__rt__read_result(q(id)) }
            1 => { __quantum__qis__mresetz__body(q(i), q(id)); __quantum__qis__read_result__body(q(id)) }
            2 => { let r = __quantum__qis__m__body(q(i)); let one = __quantum__rt__result_equal(r, __quantum__rt__result_get_one()); check(one != __quantum__rt__result_equal(r, __quantum__rt__result_get_zero()), "a result is One or Zero"); one }
            _ => { __quantum__qis__reset__body(q(i)); sample(SEED, 1) < v.prob(1 << i) }
        };
        check(draws() == d + 1, "one sample is drawn per measurement");
        born(&mut v, i, res, sample(SEED, 1));
        if op & 1 == 1 && res { v.gate(X, 0., i); }
        if op >= 2 { check(__quantum__rt__read_result(q(id)) == b, "a measurement without result identifier stores nothing"); }
        check(__quantum__rt__read_result(q(1)) == w, "other results are left as they were");
        if op & 1 == 1 { check(qubit_is_zero(q(i)), "a reset qubit is in |0>"); }
        same(&v, "state after a measurement");
    }
    h_b05b {
        // outcomes repeat, and a certain outcome still draws a sample
        let op = choice(3);
        let one = flag();
        let k = choice(3);
        begin();
        let mut v = zero(2);
        __quantum__qis__h__body(q(0)); v.gate(H, 0., 0);
        __quantum__qis__x__body(q(1)); __quantum__qis__x__body(q(1));
        if one { __quantum__qis__x__body(q(1)); v.gate(X, 0., 1); }
        match k { 1 => { __quantum__qis__z__body(q(1)); v.gate(Z, 0., 1) } 2 => { cx(&mut v, 0, 1) } _ => {} }
        __quantum__qis__mz__body(q(1), q(0));
        let r = __quantum__rt__read_result(q(0));
        born(&mut v, 1, r, sample(SEED, 1));
        check(k == 2 || r == one, "a certain outcome");
        let s = match op {
            0 => { __quantum__qis__mz__body(q(1), q(1)); __quantum__rt__read_result(q(1)) }
            1 => { __quantum__qis__mresetz__body(q(1), q(1)); __quantum__rt__read_result(q(1)) }
            _ => __quantum__rt__result_equal(__quantum__qis__m__body(q(1)), __quantum__rt__result_get_one()),
        };
        check(s == r, "measuring again gives the same outcome");
        check(draws() == 2, "one sample is drawn per measurement");
        if op == 1 && s { v.gate(X, 0., 1); }
        __quantum__qis__mz__body(q(0), q(2));
        born(&mut v, 0, __quantum__rt__read_result(q(2)), sample(SEED, 3));
        same(&v, "state after three measurements");
    }
    h_b06a {
        // any history of writes and reads against a map that starts out false
        let ids = [0usize, 1, 2, 63, 64, 130];
        let n = ids.len();
        let mut m = [false; 6];
        begin();
        for _ in 0..if thorough() { 4 } else { 3 } {
            let (i, k) = (choice(n), choice(3));
            match k {
                0 => { let b = bits(1) == 1; __quantum__rt__write_result(b, q(ids[i])); m[i] = b; }
                1 => check(__quantum__rt__read_result(q(ids[i])) == m[i], "the value last stored"),
                _ => check(__quantum__qis__read_result__body(q(ids[i])) == m[i], "the value last stored"),
            }
        }
        for i in 0..n { check(__quantum__rt__read_result(q(ids[i])) == m[i], "the value last stored, or false"); }
    }
    h_b06b {
        let (a, b) = (bits(64), bits(64));
        check(__quantum__rt__result_equal(a as usize as Q, b as usize as Q) == (a == b), "results are equal when they are the same");
        let (z, o) = (__quantum__rt__result_get_zero(), __quantum__rt__result_get_one());
        check(!__quantum__rt__result_equal(z, o) && __quantum__rt__result_equal(z, z) && __quantum__rt__result_equal(o, o), "Zero is not One");
        let n = bits(32) as u32 as i32;
        __quantum__rt__result_update_reference_count(a as usize as Q, n);
        check(z == __quantum__rt__result_get_zero() && o == __quantum__rt__result_get_one(), "the constants stay");
    }
    h_b07a {
        // two arrays and a single qubit, released in any order
        let (n, m) = (choice(4), choice(4));
        let order = choice(6);
        begin();
        let a = __quantum__rt__qubit_allocate_array(n as u64);
        let s = __quantum__rt__qubit_allocate() as usize;
        let b = __quantum__rt__qubit_allocate_array(m as u64);
        check(__quantum__rt__array_get_size_1d(a) as usize == n && __quantum__rt__array_get_size_1d(b) as usize == m, "as many qubits as asked for");
        let ia: Vec<usize> = (0..n).map(|i| unsafe { *el(a, i).cast::<usize>() }).collect();
        let ib: Vec<usize> = (0..m).map(|i| unsafe { *el(b, i).cast::<usize>() }).collect();
        let mut all: Vec<usize> = ia.iter().chain(&ib).copied().collect();
        all.push(s);
        all.sort();
        all.dedup();
        check(all.len() == n + m + 1, "the identifiers of live qubits are distinct");
        let k = n + m + 1;
        let v = dense(k);
        states(&v.flat(), &zero(k).flat(), "new qubits are in |0>");
        // a value on every qubit so that it shows when a wrong one is released
        let th = angle();
        for i in ia.iter().chain(&ib) { __quantum__qis__x__body(q(*i)); }
        __quantum__qis__ry__body(th, q(s));
        let steps = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][order];
        let mut left = k;
        let mut s_in = true;
        for (j, x) in steps.iter().enumerate() {
            match x { 0 => { __quantum__rt__qubit_release_array(a); left -= n; } 1 => { __quantum__rt__qubit_release(q(s)); left -= 1; s_in = false; } _ => { __quantum__rt__qubit_release_array(b); left -= m; } }
            let w = dense(left);
            if left > 0 {
                let mut e = zero(left);
                for i in 0..left { e.gate(X, 0., i); }
                if s_in {
                    let gone_a = steps[..j + 1].contains(&0);
                    let gone_b = steps[..j + 1].contains(&2);
                    let pos = ia.iter().filter(|i| !gone_a && **i < s).count() + ib.iter().filter(|i| !gone_b && **i < s).count();
                    e.gate(X, 0., pos);
                    e.gate(RY, th, pos);
                }
                states(&w.flat(), &e.flat(), "the qubits that are still live keep their state");
            }
        }
    }
    h_b07b {
        // nothing is left on the heap, and released identifiers come back in |0>
        let n = choice(5);
        no_leak(&|| unsafe {
            let a = __quantum__rt__qubit_allocate_array(n as u64);
            for i in 0..n { __quantum__qis__x__body(q(*el(a, i).cast::<usize>())); }
            __quantum__rt__qubit_release_array(a);
            let b = __quantum__rt__qubit_allocate_array(n as u64);
            for i in 0..n { check(qubit_is_zero(q(*el(b, i).cast::<usize>())), "a qubit allocated again is in |0>"); }
            __quantum__rt__qubit_release_array(b);
        });
    }
    h_b07c {
        // a second reference keeps the array readable after its qubits are released
        let n = choice(4);
        let more = choice(3);
        begin();
        let a = __quantum__rt__qubit_allocate_array(n as u64);
        let ids: Vec<usize> = (0..n).map(|i| unsafe { *el(a, i).cast::<usize>() }).collect();
        __quantum__rt__array_update_reference_count(a, more as i32);
        __quantum__rt__qubit_release_array(a);
        if more > 0 {
            unchanged_q(a, &ids);
            __quantum__rt__array_update_reference_count(a, -(more as i32));
        }
        check(dense(0).n == 0, "no qubit is left");
    }
    h_b07d {
        // any history of allocations, releases and gates; every live qubit keeps its value, and there are no others
        let start = [0usize, 2, 3, 4][choice(4)];
        begin();
        let mut live: Vec<(usize, bool)> = vec![];
        let fresh = |live: &mut Vec<(usize, bool)>, id: usize| { check(!live.iter().any(|x| x.0 == id), "a new qubit has an identifier of its own"); live.push((id, false)); };
        let state = |live: &Vec<(usize, bool)>| {
            let v = dense(live.len());
            let mut s = live.clone();
            s.sort();
            let at = s.iter().enumerate().map(|(i, x)| (x.1 as usize) << i).sum::<usize>();
            let mut e = zero(live.len());
            for (i, a) in e.v.iter_mut().enumerate() { *a = c(if i == at { 1. } else { 0. }, 0.); }
            states(&v.flat(), &e.flat(), "every live qubit keeps its value");
        };
        for _ in 0..start { let id = __quantum__rt__qubit_allocate() as usize; fresh(&mut live, id); }
        for _ in 0..if thorough() { 5 } else { 4 } {
            let n = live.len();
            let k = choice(2 + 2 * n);
            if k == 0 { let id = __quantum__rt__qubit_allocate() as usize; fresh(&mut live, id); }
            else if k == 1 {
                let a = __quantum__rt__qubit_allocate_array(2);
                for i in 0..2 { fresh(&mut live, *el(a, i).cast::<usize>()); }
            }
            else if k < 2 + n { __quantum__rt__qubit_release(q(live.remove(k - 2).0)); }
            else { let i = k - 2 - n; __quantum__qis__x__body(q(live[i].0)); live[i].1 = !live[i].1; }
            state(&live);
        }
        for i in 0..live.len() { __quantum__qis__x__body(q(live[i].0)); live[i].1 = !live[i].1; }
        state(&live);
        let id = __quantum__rt__qubit_allocate() as usize;
        fresh(&mut live, id);
        state(&live);
    }
    h_b08a {
        // initialize after any small program
        let k = choice(6);
        let n = choice(4);
        let mut v = entangled(if n == 0 { 1 } else { n });
        let mut used = 0;
        for i in 0..n { __quantum__qis__mz__body(q(i), q(2 * i)); used += 1; }
        __quantum__rt__write_result(true, q(5));
        match k { 1 => { __quantum__rt__qubit_release(q(0)); used += if n < 2 { 0 } else { 1 }; } 2 => { __quantum__qis__h__body(q(0)); } 3 => { __quantum__qis__rx__body(0.3, q(7)); } 4 => { __quantum__rt__qubit_allocate(); } 5 => { __quantum__rt__qubit_allocate_array(3); } _ => {} }
        let d = draws();
        __quantum__rt__initialize(null_mut());
        check(capture_quantum_state().1 == 0, "no qubits after initialization");
        for i in [0, 2, 4, 5, 6, 64] { check(!__quantum__rt__read_result(q(i)), "all results are false after initialization"); }
        // identifiers start again, in |0>
        let mut w = zero(2);
        if flag() { check(__quantum__rt__qubit_allocate() as usize == 0, "identifiers start again"); }
        __quantum__qis__h__body(q(0)); w.gate(H, 0., 0);
        __quantum__qis__x__body(q(1)); w.gate(X, 0., 1);
        same(&w, "state of a program after initialization");
        // the stream of samples goes on where it was
        check(draws() == d, "initialization draws no sample");
        __quantum__qis__mz__body(q(0), q(0));
        born(&mut w, 0, __quantum__rt__read_result(q(0)), sample(SEED, d + 1));
        __quantum__qis__mz__body(q(1), q(1));
        born(&mut w, 1, __quantum__rt__read_result(q(1)), sample(SEED, d + 2));
        same(&w, "state after measurement");
    }
    h_b08b {
        // seeding and initialization in either order give the same outcomes
        let order = flag();
        let seed = bits(64);
        if order { set_rng_seed(seed); __quantum__rt__initialize(null_mut()); } else { __quantum__rt__initialize(null_mut()); set_rng_seed(seed); }
        let n = 1 + choice(3);
        for r in 0..n {
            if r > 0 { __quantum__rt__initialize(null_mut()); }
            let mut v = zero(1);
            let th = angle();
            __quantum__qis__ry__body(th, q(0));
            v.gate(RY, th, 0);
            __quantum__qis__mz__body(q(0), q(0));
            born(&mut v, 0, __quantum__rt__read_result(q(0)), sample(seed, r as u64 + 1));
        }
    }
}
