//! Sizes, counts and identifiers beyond the small ones: a few symbolic bytes among many.
use super::data::{Arr, el, holds};
use super::refsim::{self, *};
use num_bigint::{BigInt, BigUint};
use qir_backend::exp::*;
use qir_backend::result_bool::*;
use qir_backend::*;
use std::ffi::{CString, c_char, c_void};
use std::ptr::null_mut;
use sym::*;

type Q = *mut c_void;
fn q(i: usize) -> Q { i as Q }
const SIZES: [usize; 15] = [15, 16, 17, 31, 32, 33, 63, 64, 65, 128, 255, 256, 257, 1000, 5000];
/// bytes other than zero: symbolic at the ends and in the middle, a pattern elsewhere
fn bytes(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 % 251) as u8 + 1).collect();
    for i in [0, 1, n / 2, n.wrapping_sub(2), n.wrapping_sub(1)] { if i < n { v[i] = bits(8) as u8; assume(v[i] != 0); } }
    v
}
fn string(t: &[u8]) -> Vec<u8> { let mut t = t.to_vec(); t.push(0); t }
unsafe fn put(a: Arr, es: usize, v: &[u8]) { for (k, x) in v.iter().enumerate() { unsafe { *el(a, k / es).add(k % es) = *x; } } }
unsafe fn is(s: *const CString, want: &[u8], id: &str) { unsafe {
    check(__quantum__rt__string_get_length(s) as usize == want.len(), id);
    let p = __quantum__rt__string_get_data(s).cast::<u8>();
    for (i, b) in want.iter().enumerate() { check(*p.add(i) == *b, id); }
    check(*p.add(want.len()) == 0, "the data of a string is terminated");
} }
fn buffered() { OUTPUT.with(|o| o.borrow_mut().use_std_out(false)); }
fn drained() -> Vec<u8> { OUTPUT.with(|o| o.borrow_mut().drain().collect()) }
fn same(a: &[u8], b: &[u8], id: &str) { check(a.len() == b.len(), id); for (x, y) in a.iter().zip(b) { check(*x == *y, id); } }
unsafe fn gone(s: *const CString) { unsafe { __quantum__rt__string_update_reference_count(s, -1) } }
unsafe fn big(d: &[u8]) -> *const BigInt { unsafe { __quantum__rt__bigint_create_array(d.len() as u32, d.as_ptr()) } }

// a callable that uses itself while it is being called
static mut SELF: *const QirCallable = std::ptr::null();
static mut DO: [usize; 2] = [0, 0];
static mut DEPTH: usize = 0;
static mut LOG: [(usize, u64, u64); 4] = [(9, 0, 0); 4];
type QirCallable = qir_backend::Callable;
unsafe fn run(which: usize, a: *mut u8) { unsafe {
    let d = DEPTH;
    DEPTH += 1;
    check(d < 4, "one specialisation per invocation");
    let p = a as *const u64;
    LOG[d] = (which, if which >= 2 { *p.add(1) } else { *p }, if which >= 2 { __quantum__rt__array_get_size_1d(*p as Arr) } else { 0 });
    if d < 2 {
        match DO[d] {
            1 => __quantum__rt__callable_make_adjoint(SELF),
            2 => __quantum__rt__callable_make_controlled(SELF),
            3 => { let t = __quantum__rt__tuple_create(16) as *mut u64; let arr = __quantum__rt__array_create_1d(8, 1); *t = if which >= 2 { arr as u64 } else { 55 }; *t.add(1) = 66; __quantum__rt__callable_invoke(SELF, t as *mut u8, null_mut()); __quantum__rt__tuple_update_reference_count(t as *mut _, -1); __quantum__rt__array_update_reference_count(arr, -1); }
            4 => { __quantum__rt__callable_update_reference_count(SELF, 1); let c = __quantum__rt__callable_copy(SELF, true); __quantum__rt__callable_update_reference_count(SELF, -1); __quantum__rt__callable_make_controlled(c); __quantum__rt__callable_update_reference_count(c, -1); }
            _ => {}
        }
    }
} }
extern "C" fn s0(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { run(0, a) } }
extern "C" fn s1(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { run(1, a) } }
extern "C" fn s2(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { run(2, a) } }
extern "C" fn s3(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { run(3, a) } }
static mut STABLE: [extern "C" fn(*mut u8, *mut u8, *mut u8); 4] = [s0, s1, s2, s3];
// what the callee got with many controls
static mut MANY: (usize, Vec<u64>, u64, usize) = (9, Vec::new(), 0, 9);
unsafe fn many(which: usize, a: *mut u8) { unsafe {
    #[allow(static_mut_refs)]
    { MANY.3 = which; }
    let p = a as *const u64;
    #[allow(static_mut_refs)]
    { MANY.0 += 1; MANY.1.clear(); for i in 0..__quantum__rt__array_get_size_1d(*p as Arr) as usize { MANY.1.push((el(*p as Arr, i) as *const u64).read_unaligned()); } MANY.2 = *p.add(1); }
} }
extern "C" fn n0(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { many(0, a) } }
extern "C" fn n1(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { many(1, a) } }
extern "C" fn n2(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { many(2, a) } }
extern "C" fn n3(_: *mut u8, a: *mut u8, _: *mut u8) { unsafe { many(3, a) } }
static mut NTABLE: [extern "C" fn(*mut u8, *mut u8, *mut u8); 4] = [n0, n1, n2, n3];

entries! {
    h_x01a {
        // arrays with many elements
        let n = SIZES[choice(14)];
        let es = [1, 8, 3][choice(3)];
        let m = [0, 1, 40][choice(3)];
        heap_mark();
        let a = __quantum__rt__array_create_1d(es as u32, n as u64);
        let b = __quantum__rt__array_create_1d(es as u32, m as u64);
        for i in [0, n / 2, n - 1] { for k in 0..es { check(*el(a, i).add(k) == 0, "a new array has its size and is zero-filled"); } }
        let (x, y) = (bytes(n * es), bytes(m * es));
        put(a, es, &x);
        put(b, es, &y);
        holds(a, es, &x, "every element keeps what was written to it");
        let c = __quantum__rt__array_concatenate(a, b);
        let d = __quantum__rt__array_concatenate(b, a);
        let mut z = x.clone(); z.extend(&y);
        let mut w = y.clone(); w.extend(&x);
        holds(c, es, &z, "concatenation has the elements of both in order");
        holds(d, es, &w, "concatenation has the elements of both in order");
        holds(a, es, &x, "concatenation leaves the first operand");
        holds(b, es, &y, "concatenation leaves the second operand");
        *el(c, n - 1) ^= 1;
        holds(a, es, &x, "the concatenation is independent of its operands");
        for p in [a, b, c, d] { __quantum__rt__array_update_reference_count(p, -1); }
        drop((x, y, z, w));
        heap_check("array memory is returned");
    }
    h_x02a {
        // copies of large values
        let n = SIZES[choice(15)];
        let tuple = choice(2) == 1;
        let al = flag();
        let x = bytes(n);
        heap_mark();
        if tuple {
            let t = __quantum__rt__tuple_create(n as u64) as *mut u8;
            for i in 0..n { check(*t.add(i) == 0, "a new tuple is zero"); *t.add(i) = x[i]; }
            if al { __quantum__rt__tuple_update_alias_count(t as *mut _, 1); }
            let u = __quantum__rt__tuple_copy(t as *mut _, !al) as *mut u8;
            check(u != t, "with force or aliases another value is returned");
            for i in 0..n { check(*u.add(i) == x[i], "a copy has equal contents"); *u.add(i) = 0; }
            for i in 0..n { check(*t.add(i) == x[i], "writing a copy does not change its source"); *t.add(i) = 1; }
            for i in 0..n { check(*u.add(i) == 0, "writing the source does not change its copy"); }
            if al { __quantum__rt__tuple_update_alias_count(t as *mut _, -1); }
            __quantum__rt__tuple_update_reference_count(t as *mut _, -1);
            __quantum__rt__tuple_update_reference_count(u as *mut _, -1);
        } else {
            let a = __quantum__rt__array_create_1d(1, n as u64);
            put(a, 1, &x);
            if al { __quantum__rt__array_update_alias_count(a, 1); }
            let b = __quantum__rt__array_copy(a, !al);
            check(a != b, "with force or aliases another value is returned");
            holds(b, 1, &x, "a copy has equal contents");
            *el(b, n / 2) ^= 1;
            *el(b, n - 1) ^= 1;
            holds(a, 1, &x, "writing a copy does not change its source");
            if al { __quantum__rt__array_update_alias_count(a, -1); }
            __quantum__rt__array_update_reference_count(a, -1);
            check(*el(b, 0) == x[0], "a copy outlives its source");
            __quantum__rt__array_update_reference_count(b, -1);
        }
        heap_check("copies return their memory");
    }
    h_x03a {
        // slices of larger arrays
        let n = [8usize, 17, 40, 100, 260][choice(5)];
        let es = [1, 8][choice(2)];
        let k = n as i64;
        let start = [0, 1, k / 2, k - 1, k, -1][choice(6)];
        let step = [1, 2, 3, -1, -2, -7, k, -k, i64::MAX, i64::MIN][choice(10)];
        let end = [0, k / 2, k - 1, k - 2, k, -1, start][choice(7)];
        let a = __quantum__rt__array_create_1d(es as u32, n as u64);
        let x = bytes(n * es);
        put(a, es, &x);
        let mut want = vec![];
        let mut fail = false;
        let mut i = start as i128;
        while if step > 0 { i <= end as i128 } else { i >= end as i128 } {
            if i < 0 || i >= n as i128 { fail = true; break; }
            want.extend_from_slice(&x[i as usize * es..(i as usize + 1) * es]);
            i += step as i128;
        }
        if fail { panic_mode(1); }
        let s = quantum__rt__array_slice_1d(a, Range { start, step, end });
        if fail { must_not_return("a range outside the array fails"); }
        holds(s, es, &want, "a slice has exactly the elements of the range");
        holds(a, es, &x, "slicing leaves the source");
    }
    h_x04a {
        // many references at once
        let n = [7, 8, 16, 100, 255, 256, 1000][choice(7)];
        let kind = choice(3);
        heap_mark();
        let a = __quantum__rt__array_create_1d(1, 2);
        *el(a, 1) = 7;
        let t = __quantum__rt__tuple_create(2) as *mut u8;
        *t.add(1) = 7;
        let s = __quantum__rt__string_create(c"ab".as_ptr() as *mut c_char);
        let up = |n: i32| match kind { 0 => __quantum__rt__array_update_reference_count(a, n), 1 => __quantum__rt__tuple_update_reference_count(t as *mut _, n), _ => __quantum__rt__string_update_reference_count(s, n) };
        let al = |n: i32| match kind { 0 => __quantum__rt__array_update_alias_count(a, n), 1 => __quantum__rt__tuple_update_alias_count(t as *mut _, n), _ => {} };
        let ok = || match kind { 0 => check(*el(a, 1) == 7, "a value with references reads unchanged"), 1 => check(*t.add(1) == 7, "a value with references reads unchanged"), _ => is(s, b"ab", "a value with references reads unchanged") };
        up(n);
        al(n);
        if flag() { for _ in 0..n { up(-1); ok(); } } else { up(-n); ok(); }
        al(-n);
        ok();
        __quantum__rt__array_update_reference_count(a, -1);
        __quantum__rt__tuple_update_reference_count(t as *mut _, -1);
        gone(s);
        heap_check("all memory is returned with the last reference");
    }
    h_x05a {
        // tuples of many sizes, next to each other
        let n = SIZES[choice(15)];
        heap_mark();
        let t = __quantum__rt__tuple_create(n as u64) as *mut u8;
        let s = __quantum__rt__tuple_create(n as u64) as *mut u8;
        let x = bytes(n);
        for i in 0..n { check(*t.add(i) == 0 && *s.add(i) == 0, "a new tuple is zero"); }
        for i in 0..n { *t.add(i) = x[i]; *s.add(i) = 0x5a; }
        for i in 0..n { check(*t.add(i) == x[i], "a tuple keeps what was written to it"); }
        __quantum__rt__tuple_update_reference_count(s as *mut _, -1);
        for i in 0..n { check(*t.add(i) == x[i], "a tuple is readable until its last reference is gone"); }
        __quantum__rt__tuple_update_reference_count(t as *mut _, -1);
        drop(x);
        heap_check("tuple memory is returned");
    }
    h_x06a {
        // many controls on many levels
        let lv = [1usize, 2, 3, 4, 5, 6, 9, 17, 33][choice(9)];
        let n = [0, 1, 3, 9, 40][choice(if lv > 6 { 3 } else { 5 })];
        // an adjoint first, last or not at all; a forced copy, after which the original changes, half way, at the end or not at all
        let adj = choice(3);
        let cp = choice(3);
        let x = [bits(64), bits(64), bits(64)];
        let y = bits(64);
        MANY = (0, Vec::with_capacity(512), 0, 9);
        let mut want: Vec<u64> = vec![];
        heap_mark();
        let mut c = __quantum__rt__callable_create(&raw mut NTABLE as *mut *mut u8, null_mut(), null_mut());
        let copied = |c: *const QirCallable| { let d = __quantum__rt__callable_copy(c, true); __quantum__rt__callable_make_controlled(c); __quantum__rt__callable_make_adjoint(c); __quantum__rt__callable_update_reference_count(c, -1); d };
        if adj == 1 { __quantum__rt__callable_make_adjoint(c); }
        for i in 0..lv { if cp == 1 && i == lv / 2 { c = copied(c); } __quantum__rt__callable_make_controlled(c); }
        if adj == 2 { __quantum__rt__callable_make_adjoint(c); }
        if cp == 2 { c = copied(c); }
        let mut inner = y;
        let mut keep: Vec<(Arr, *mut u64)> = vec![];
        for l in (0..lv).rev() {
            let n = if l % 2 == 0 { n } else { 1 };
            let a = __quantum__rt__array_create_1d(8, n as u64);
            for i in 0..n { (el(a, i) as *mut u64).write_unaligned(x[(i + l) % 3].wrapping_add((i * 64 + l) as u64)); }
            let t = __quantum__rt__tuple_create(16) as *mut u64;
            *t = a as u64;
            *t.add(1) = inner;
            inner = t as u64;
            keep.insert(0, (a, t));
        }
        for l in 0..lv { let n = if l % 2 == 0 { n } else { 1 }; for i in 0..n { want.push(x[(i + l) % 3].wrapping_add((i * 64 + l) as u64)); } }
        __quantum__rt__callable_invoke(c, keep[0].1 as *mut u8, null_mut());
        #[allow(static_mut_refs)]
        { check(MANY.0 == 1, "exactly one specialisation is called once"); check(MANY.3 == 2 + (adj > 0) as usize, "the controlled or controlled-adjoint entry"); check(MANY.1.len() == want.len(), "the controls of all levels"); for i in 0..want.len() { check(MANY.1[i] == want[i], "controls outermost first"); } check(MANY.2 == y, "the innermost arguments"); }
        for (a, t) in &keep { __quantum__rt__tuple_update_reference_count(*t as *mut _, -1); __quantum__rt__array_update_reference_count(*a, -1); }
        drop((keep, want));
        __quantum__rt__callable_update_reference_count(c, -1);
        heap_check("invoking leaks nothing");
    }
    h_x06b {
        // the callee uses the callable it was called through
        let (a, b) = (choice(5), choice(5));
        let ctl = choice(2) == 1;
        DO = [a, b];
        DEPTH = 0;
        LOG = [(9, 0, 0); 4];
        heap_mark();
        SELF = __quantum__rt__callable_create(&raw mut STABLE as *mut *mut u8, null_mut(), null_mut());
        if ctl { __quantum__rt__callable_make_controlled(SELF); }
        let t = __quantum__rt__tuple_create(16) as *mut u64;
        let arr = __quantum__rt__array_create_1d(8, 2);
        let (x, y) = (if ctl { arr as u64 } else { bits(64) }, bits(64));
        *t = x;
        *t.add(1) = y;
        __quantum__rt__callable_invoke(SELF, t as *mut u8, null_mut());
        check(DEPTH == if a == 3 { if b == 3 { 3 } else { 2 } } else { 1 }, "one specialisation per invocation");
        let k = if ctl { 2 } else { 0 };
        let log = LOG;
        check(log[0] == (k, if ctl { y } else { x }, if ctl { 2 } else { 0 }), "the specialisation and arguments of the first call");
        if a == 3 { check(log[1] == (k, if ctl { 66 } else { 55 }, if ctl { 1 } else { 0 }), "the specialisation and arguments of a call from within"); }
        check(*t == x && *t.add(1) == y, "the caller's tuple is unchanged");
        // what the callee changed lasts
        let adj = a == 1 || (a == 3 && b == 1);
        let now = ctl || a == 2 || (a == 3 && b == 2);
        DO = [0, 0];
        DEPTH = 0;
        let lv = ctl as usize + (a == 2 || (a == 3 && b == 2)) as usize;
        let inner = __quantum__rt__tuple_create(16) as *mut u64;
        *inner = arr as u64;
        *inner.add(1) = y;
        if lv == 2 { *t = arr as u64; *t.add(1) = inner as u64; } else if lv == 1 { *t = arr as u64; *t.add(1) = y; }
        __quantum__rt__callable_invoke(SELF, t as *mut u8, null_mut());
        let log = LOG;
        check(log[0].0 == adj as usize + if now { 2 } else { 0 }, "functors applied by the callee last");
        check(log[0].2 == 2 * lv as u64, "the controls of all levels");
        __quantum__rt__tuple_update_reference_count(inner as *mut _, -1);
        __quantum__rt__tuple_update_reference_count(t as *mut _, -1);
        __quantum__rt__array_update_reference_count(arr, -1);
        __quantum__rt__callable_update_reference_count(SELF, -1);
        heap_check("invoking leaks nothing");
    }
    h_x07a {
        // operands of three and four words
        let op = choice(14);
        let (n, m) = ([17usize, 24, 25, 33][choice(4)], [1usize, 8, 16, 17, 24, 33][choice(6)]);
        let mul = op >= 8 && op <= 11;
        // products and quotients of that size with symbolic bytes are out of the solver's reach: patterns
        let pat = choice(if mul { 3 } else { 1 }) as u8;
        let mut d = |n: usize, few: bool| { let mut v: Vec<u8> = (0..n).map(|i| (i * 37 % 256) as u8).collect(); if !few { for i in [0, 7, 8, 15, 16] { if i < n { v[i] = bits(8) as u8; } } } else { v[0] = pat ^ 5; for i in 1..n - 1 { if pat == 1 { v[i] = 0; } else if pat == 2 { v[i] = 0xff; } } } v[n - 1] = [0x7f, 0x81, 1, 0xff][choice(4)]; v };
        let (x, y) = (d(n, mul), d(m, mul));
        let (p, r) = (big(&x), big(&y));
        let (a, b) = (BigInt::from_signed_bytes_le(&x), BigInt::from_signed_bytes_le(&y));
        check(*p == a && *r == b, "value of an integer");
        let z = BigInt::from(0);
        if op == 9 || op == 10 { assume(b != z); }
        let (got, want) = match op {
            0 => (__quantum__rt__bigint_add(p, r), &a + &b),
            1 => (__quantum__rt__bigint_subtract(p, r), &a - &b),
            2 => (__quantum__rt__bigint_subtract(r, p), &b - &a),
            3 => (__quantum__rt__bigint_negate(p), z - &a),
            4 => (__quantum__rt__bigint_bitand(p, r), &a & &b),
            5 => (__quantum__rt__bigint_bitor(p, r), &a | &b),
            6 => (__quantum__rt__bigint_bitxor(p, r), &a ^ &b),
            7 => (__quantum__rt__bigint_bitnot(p), z - &a - 1),
            8 => (__quantum__rt__bigint_multiply(p, r), &a * &b),
            9 => (__quantum__rt__bigint_divide(p, r), &a / &b),
            10 => (__quantum__rt__bigint_modulus(p, r), &a % &b),
            11 => { let e = choice(4) as u32; let mut w = BigInt::from(1); for _ in 0..e { w = &w * &a; } (__quantum__rt__bigint_power(p, e), w) }
            12 => { let s = [0u64, 1, 63, 64, 65, 127, 128, 129, 192, 255, 256, 300][choice(12)]; let l = __quantum__rt__bigint_shiftleft(p, s); check(*l == &a << s, "left shift"); (__quantum__rt__bigint_shiftright(p, s), &a >> s) }
            _ => { check(__quantum__rt__bigint_equal(p, r) == (a == b), "equality"); check(__quantum__rt__bigint_greater(p, r) == (a > b), "greater"); check(__quantum__rt__bigint_greater_eq(p, r) == (a >= b), "greater or equal"); (p, a.clone()) }
        };
        check(*got == want, "exact result of an operation");
        check(*p == a && *r == b, "operands are not modified");
    }
    h_x07b {
        // large exponents of the numbers whose powers stay small
        let e = [65535u32, 65536, 65537, 1 << 17, i32::MAX as u32, 1 << 31, u32::MAX][choice(7)];
        let k = choice(3) as i64 - 1;
        let p = __quantum__rt__bigint_create_i64(k);
        let got = __quantum__rt__bigint_power(p, e);
        check(*got == BigInt::from(if k < 0 && e % 2 == 0 { 1 } else { k }), "exact result of an operation");
        check(*p == BigInt::from(k), "operands are not modified");
    }
    h_x08a {
        // longer byte strings
        let n = [12usize, 15, 16, 17, 23, 24, 25, 32, 33, 64, 65, 128, 129, 255, 256, 257][choice(16)];
        let mut b: Vec<u8> = (0..n).map(|i| (i * 37 % 256) as u8).collect();
        for i in [0, 7, 8, n - 3, n - 2, n - 1] { b[i] = bits(8) as u8; }
        let p = big(&b);
        let mut k = n;
        while k > n - 3 && ((b[k - 1] == 0 && b[k - 2] & 0x80 == 0) || (b[k - 1] == 0xff && b[k - 2] & 0x80 != 0)) { k -= 1; }
        // the pattern ends the redundancy
        assume(k > n - 3);
        check(__quantum__rt__bigint_get_length(p) as usize == k, "length of the shortest form");
        let d = __quantum__rt__bigint_get_data(p);
        for i in 0..k { check(*d.add(i) == b[i], "bytes of the shortest form"); }
        let r = __quantum__rt__bigint_create_array(k as u32, d);
        check(__quantum__rt__bigint_equal(p, r), "an equal value is created from the bytes");
    }
    h_x09a {
        // long strings
        let n = SIZES[choice(15)];
        let m = [0, 1, 20, 300][choice(4)];
        let (a, b) = (bytes(n), bytes(m));
        let (mut x, mut y) = (string(&a), string(&b));
        heap_mark();
        let s = __quantum__rt__string_create(x.as_mut_ptr().cast());
        let t = __quantum__rt__string_create(y.as_mut_ptr().cast());
        for k in x[..n].iter_mut() { *k = 1; }
        is(s, &a, "a string keeps the bytes it was created from");
        let c = __quantum__rt__string_concatenate(s, t);
        let mut want = a.clone();
        want.extend(&b);
        is(c, &want, "a concatenation is the first string followed by the second");
        is(s, &a, "the first operand is left as it was");
        is(t, &b, "the second operand is left as it was");
        let mut e = a.clone();
        let at = [0, n / 2, n - 1][choice(3)];
        e[at] ^= bits(2) as u8;
        assume(e[at] != 0);
        let mut f = string(&e);
        let u = __quantum__rt__string_create(f.as_mut_ptr().cast());
        check(__quantum__rt__string_equal(s, u) == (e[at] == a[at]), "strings are equal when their bytes are");
        check(__quantum__rt__string_equal(c, s) == (m == 0), "strings of different lengths are different");
        drop((want, e, f));
        for p in [s, t, c, u] { gone(p); }
        heap_check("nothing is left of released strings");
    }
    h_x10a {
        // text of large integers
        let (n, m) = ([9usize, 16, 17, 24, 25, 33][choice(6)], choice(4));
        let mut v: Vec<u8> = (0..n).map(|i| (i * 37 % 256) as u8).collect();
        v[n - 1] = [0x7f, 0x81, 1, 0xff][m];
        let k = choice(2);
        if k == 1 { for x in v[..n - 1].iter_mut() { *x = 0; } }
        if n <= 16 { v[n / 2] ^= bits(1) as u8; }
        let p = big(&v);
        let s = __quantum__rt__bigint_to_string(p);
        // digits by repeated division of the magnitude
        let neg = v[n - 1] & 0x80 != 0;
        let mut mag: Vec<u16> = v.iter().map(|x| *x as u16).collect();
        if neg { let mut carry = 1; for x in mag.iter_mut() { let y = (!*x & 0xff) + carry; *x = y & 0xff; carry = y >> 8; } }
        let mut want = vec![];
        while mag.iter().any(|x| *x != 0) { let mut r = 0; for x in mag.iter_mut().rev() { let y = r << 8 | *x; *x = y / 10; r = y % 10; } want.push(b'0' + r as u8); }
        if neg { want.push(b'-'); }
        want.reverse();
        is(s, &want, "text of a big integer");
    }
    h_x11a {
        // long tags and messages
        buffered();
        let n = [15, 16, 17, 32, 33, 64, 100, 255, 256, 300][choice(10)];
        let k = choice(4);
        let a = bytes(n);
        let mut t = string(&a);
        let p = t.as_mut_ptr().cast::<c_char>();
        let mut want: Vec<u8> = match k {
            0 => { __quantum__rt__int_record_output(-12, p); b"OUTPUT\tINT\t-12\t".to_vec() }
            1 => { __quantum__rt__bool_record_output(true, p); b"OUTPUT\tBOOL\ttrue\t".to_vec() }
            2 => { __quantum__rt__array_record_output(n as i64, p); format!("OUTPUT\tARRAY\t{n}\t").into_bytes() }
            _ => { __quantum__rt__tuple_record_output(3, p); b"OUTPUT\tTUPLE\t3\t".to_vec() }
        };
        want.extend(&a);
        want.push(b'\n');
        // and a message of the same length
        let msg: Vec<u8> = (0..n).map(|i| b"abc XYZ09{}~"[i % 12]).collect();
        let s = CString::from_vec_with_nul_unchecked(string(&msg));
        __quantum__rt__message(&s);
        want.extend(b"INFO\t");
        want.extend(&msg);
        want.push(b'\n');
        same(&drained(), &want, "the recorded lines");
    }
    h_x11b {
        // many records in a row
        buffered();
        let n = [3, 8, 40, 130][choice(4)];
        let x = int();
        let y = flag();
        let mut want = vec![];
        for i in 0..n {
            match i % 3 {
                0 => { let v = if i + 3 >= n { x } else { i as i64 * 1000 }; __quantum__rt__int_record_output(v, null_mut()); want.extend(format!("OUTPUT\tINT\t{v}\n").bytes()); }
                1 => { let v = y ^ (i & 2 == 2); __quantum__rt__bool_record_output(v, null_mut()); want.extend(format!("OUTPUT\tBOOL\t{v}\n").bytes()); }
                _ => { output_recording::legacy::__quantum__rt__array_start_record_output(); want.extend(b"RESULT\tARRAY_START\n"); }
            }
        }
        same(&drained(), &want, "the recorded lines");
        check(drained().is_empty(), "drained output is gone");
    }
    h_x14a {
        // blocks of many sizes
        let n = [20usize, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 5000][choice(18)];
        let a = __quantum__rt__memory_allocate(n as u64);
        for i in 0..n { check(*a.add(i) == 0, "allocated memory is zero"); *a.add(i) = 0xff; }
        let b = __quantum__rt__memory_allocate(n as u64);
        for i in 0..n { check(*b.add(i) == 0, "allocated memory is zero"); *b.add(i) = 0x11; }
        for i in 0..n { check(*a.add(i) == 0xff, "blocks of memory do not overlap"); }
    }
    h_x14b {
        // a size beyond what the allocator of this setting gives (256 MB) cannot be served by a smaller block
        let n = bits(64);
        assume(n > 256 << 20);
        panic_mode(1);
        let p = std::hint::black_box(__quantum__rt__memory_allocate(n));
        // the harness's allocator serves no such size: a block that is given is a smaller one
        check(p.is_null(), "a block of memory is as large as asked for");
        must_not_return("a block of memory is as large as asked for");
    }
    h_x06 {
        // many result identifiers
        set_rng_seed(9);
        __quantum__rt__initialize(null_mut());
        let ids = [0usize, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1024, 5000];
        let (i, j, k) = (choice(12), choice(12), choice(12));
        let (a, b) = (flag(), flag());
        __quantum__rt__write_result(a, q(ids[i]));
        __quantum__rt__write_result(b, q(ids[j]));
        let want = |x: usize| if x == j { b } else if x == i { a } else { false };
        check(__quantum__rt__read_result(q(ids[k])) == want(k), "the value last stored, or false");
        check(__quantum__qis__read_result__body(q(ids[k])) == want(k), "the value last stored, or false");
        __quantum__qis__x__body(q(0));
        __quantum__qis__mz__body(q(0), q(ids[k]));
        for x in 0..12 { check(__quantum__rt__read_result(q(ids[x])) == (want(x) || x == k), "the value last stored, or false"); }
    }
    h_x06c {
        // recorded results with large identifiers
        set_rng_seed(9);
        __quantum__rt__initialize(null_mut());
        buffered();
        let ids = [2usize, 63, 64, 65, 128, 255, 256, 1000];
        let (i, k) = (choice(8), choice(8));
        let a = flag();
        __quantum__rt__write_result(a, q(ids[i]));
        __quantum__rt__result_record_output(q(ids[k]), null_mut());
        legacy_output::__quantum__rt__result_record_output(q(ids[k]));
        let b = (a && i == k) as u8;
        same(&drained(), format!("OUTPUT\tRESULT\t{b}\nRESULT\t{b}\n").as_bytes(), "the recorded result is the stored one");
    }
    h_x07 {
        // many qubits allocated and released
        set_rng_seed(9);
        __quantum__rt__initialize(null_mut());
        let n = [9usize, 33, 64, 65, 70, 130][choice(6)];
        let k = choice(4);
        let a = __quantum__rt__qubit_allocate_array(n as u64);
        check(__quantum__rt__array_get_size_1d(a) as usize == n, "as many qubits as asked for");
        let mut ids: Vec<usize> = (0..n).map(|i| unsafe { *el(a, i).cast::<usize>() }).collect();
        let s = __quantum__rt__qubit_allocate() as usize;
        let mut all = ids.clone();
        all.push(s);
        all.sort();
        all.dedup();
        check(all.len() == n + 1, "the identifiers of live qubits are distinct");
        __quantum__qis__x__body(q(s));
        for i in [0, n / 2, n - 1] { __quantum__qis__x__body(q(ids[i])); }
        check(capture_quantum_state().1 == n + 1, "number of qubits in the state");
        // one of them goes and comes back
        if k > 0 {
            let i = [0, n / 2, n - 1][k - 1];
            __quantum__rt__qubit_release(q(ids[i]));
            check(capture_quantum_state().1 == n, "a released qubit is gone");
            let id = __quantum__rt__qubit_allocate() as usize;
            check(!all.contains(&id) || id == ids[i], "a new qubit has an identifier of its own");
            check(qubit_is_zero(q(id)), "a qubit allocated again is in |0>");
            ids[i] = id;
            *el(a, i).cast::<usize>() = id;
        }
        for i in 0..n { check(qubit_is_zero(q(ids[i])) == !(i == 0 || i == n / 2 || i == n - 1) || (k > 0 && i == [0, n / 2, n - 1][k - 1]), "every live qubit keeps its value"); }
        __quantum__rt__qubit_release_array(a);
        check(!qubit_is_zero(q(s)), "every live qubit keeps its value");
        check(capture_quantum_state().1 == 1, "released qubits are gone");
        __quantum__rt__qubit_release(q(s));
        check(capture_quantum_state().1 == 0, "no qubit is left");
    }
}
