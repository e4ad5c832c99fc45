//! Arrays, tuples, callables, big integers, random numbers and mathematics of the runtime.
use num_bigint::{BigInt, Sign};
use qir_backend::*;
use std::ffi::CString;
use sym::*;

// ---------------------------------------------------------------- helpers
pub type Arr = *const QirArray;
pub unsafe fn el(a: Arr, i: usize) -> *mut u8 { unsafe { __quantum__rt__array_get_element_ptr_1d(a, i as u64).cast::<u8>() } }
/// fill the first n*es bytes with symbolic bytes, element by element
pub unsafe fn fill(a: Arr, es: usize, n: usize) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..n { for b in 0..es { let x = bits(8) as u8; unsafe { *el(a, i).add(b) = x; } v.push(x); } }
    v
}
pub unsafe fn holds(a: Arr, es: usize, want: &[u8], id: &str) {
    unsafe {
        check(__quantum__rt__array_get_size_1d(a) as usize * es == want.len(), id);
        for (k, x) in want.iter().enumerate() { check(*el(a, k / es).add(k % es) == *x, id); }
    }
}
/// the same arguments whatever the kind of value
#[derive(Clone, Copy, PartialEq)]
enum Kind { Array, Tuple, Callable, Big, Str }
const KINDS: [Kind; 5] = [Kind::Array, Kind::Tuple, Kind::Callable, Kind::Big, Kind::Str];
struct V { k: Kind, p: *const u8, b: [u8; 6] }
impl V {
    unsafe fn new(k: Kind) -> V {
        let mut b = [0u8; 6];
        for x in b.iter_mut() { *x = bits(8) as u8; }
        let p = unsafe { match k {
            Kind::Array => { let a = __quantum__rt__array_create_1d(2, 3); for i in 0..6 { *el(a, i / 2).add(i % 2) = b[i]; } a as *const u8 }
            Kind::Tuple => { let t = __quantum__rt__tuple_create(6) as *mut u8; for i in 0..6 { *t.add(i) = b[i]; } t as *const u8 }
            Kind::Callable => __quantum__rt__callable_create(&raw mut TABLE as *mut *mut u8, std::ptr::null_mut(), b[0] as usize as *mut u8) as *const u8,
            Kind::Big => { let mut d = [0u8; 12]; d[0] = 1; d[5] = b[0]; d[10] = 1; d[11] = 0; __quantum__rt__bigint_create_array(12, d.as_ptr()) as *const u8 }
            Kind::Str => { assume(b[0] != 0 && b[1] != 0); b[2] = 0; __quantum__rt__string_create(b.as_mut_ptr().cast()) as *const u8 }
        } };
        V { k, p, b }
    }
    unsafe fn refs(&self, n: i32) { unsafe { match self.k {
        Kind::Array => __quantum__rt__array_update_reference_count(self.p.cast(), n),
        Kind::Tuple => __quantum__rt__tuple_update_reference_count(self.p as *mut _, n),
        Kind::Callable => __quantum__rt__callable_update_reference_count(self.p.cast(), n),
        Kind::Big => __quantum__rt__bigint_update_reference_count(self.p.cast(), n),
        Kind::Str => __quantum__rt__string_update_reference_count(self.p.cast(), n),
    } } }
    fn aliasable(&self) -> bool { matches!(self.k, Kind::Array | Kind::Tuple | Kind::Callable) }
    unsafe fn alias(&self, n: i32) { unsafe { match self.k {
        Kind::Array => __quantum__rt__array_update_alias_count(self.p.cast(), n),
        Kind::Tuple => __quantum__rt__tuple_update_alias_count(self.p as *mut _, n),
        Kind::Callable => __quantum__rt__callable_update_alias_count(self.p.cast(), n),
        _ => {}
    } } }
    unsafe fn copy(&self, force: bool) -> V { unsafe {
        let p = match self.k {
            Kind::Array => __quantum__rt__array_copy(self.p.cast(), force) as *const u8,
            Kind::Tuple => __quantum__rt__tuple_copy(self.p as *mut _, force) as *const u8,
            _ => __quantum__rt__callable_copy(self.p.cast(), force) as *const u8,
        };
        V { k: self.k, p, b: self.b }
    } }
    /// the value reads as last written
    unsafe fn ok(&self, id: &str) { unsafe { match self.k {
        Kind::Array => holds(self.p.cast(), 2, &self.b, id),
        Kind::Tuple => for i in 0..6 { check(*self.p.add(i) == self.b[i], id); },
        Kind::Callable => { SEEN = (9, 9); __quantum__rt__callable_invoke(self.p.cast(), std::ptr::null_mut(), std::ptr::null_mut()); check(SEEN == (if self.b[1] == 1 { 1 } else { 0 }, self.b[0] as usize), id); }
        Kind::Big => { let mut d = [0u8; 11]; d[0] = 1; d[5] = self.b[0]; d[10] = 1; let v = BigInt::from_signed_bytes_le(&d); check(*(self.p as *const BigInt) == v, id); }
        Kind::Str => { check(__quantum__rt__string_get_length(self.p.cast()) == 2, id); let d = __quantum__rt__string_get_data(self.p.cast()) as *const u8; check(*d == self.b[0] && *d.add(1) == self.b[1] && *d.add(2) == 0, id); }
    } } }
    /// change the value in place
    unsafe fn write(&mut self) { unsafe { match self.k {
        Kind::Array => { let x = bits(8) as u8; *el(self.p.cast(), 1).add(1) = x; self.b[3] = x; }
        Kind::Tuple => { let x = bits(8) as u8; *(self.p as *mut u8).add(3) = x; self.b[3] = x; }
        Kind::Callable => { __quantum__rt__callable_make_adjoint(self.p.cast()); self.b[1] = 1 - self.b[1]; }
        _ => {}
    } } }
}
pub static mut SEEN: (usize, usize) = (9, 9);
extern "C" fn t0(c: *mut u8, _: *mut u8, _: *mut u8) { unsafe { SEEN = (0, c as usize) } }
extern "C" fn t1(c: *mut u8, _: *mut u8, _: *mut u8) { unsafe { SEEN = (1, c as usize) } }
extern "C" fn t2(c: *mut u8, _: *mut u8, _: *mut u8) { unsafe { SEEN = (2, c as usize) } }
extern "C" fn t3(c: *mut u8, _: *mut u8, _: *mut u8) { unsafe { SEEN = (3, c as usize) } }
pub static mut TABLE: [extern "C" fn(*mut u8, *mut u8, *mut u8); 4] = [t0, t1, t2, t3];

// what a specialisation saw when it was called
#[derive(Clone)]
struct Call { which: usize, cap: usize, res: usize, ctls: Vec<u64>, args: [u64; 2], null: bool }
static mut CALLS: Vec<Call> = Vec::new();
unsafe fn called(which: usize, cap: *mut u8, args: *mut u8, res: *mut u8) { unsafe {
    let mut c = Call { which, cap: cap as usize, res: res as usize, ctls: vec![], args: [0, 0], null: args.is_null() };
    let mut a = args as *const u64;
    if !args.is_null() {
        if which >= 2 {
            let l = *a as Arr;
            for i in 0..__quantum__rt__array_get_size_1d(l) { c.ctls.push((el(l, i as usize) as *const u64).read_unaligned()); }
            // controlled specialisations get (controls, inner tuple) or, after flattening, (controls, arguments...)
            a = a.add(1);
            c.args = [*a, 0];
            if FLAT { c.args[1] = 0; }
        } else { c.args = [*a, *a.add(1)]; }
    }
    #[allow(static_mut_refs)]
    CALLS.push(c);
} }
static mut FLAT: bool = false;
extern "C" fn c0(c: *mut u8, a: *mut u8, r: *mut u8) { unsafe { called(0, c, a, r) } }
extern "C" fn c1(c: *mut u8, a: *mut u8, r: *mut u8) { unsafe { called(1, c, a, r) } }
extern "C" fn c2(c: *mut u8, a: *mut u8, r: *mut u8) { unsafe { called(2, c, a, r) } }
extern "C" fn c3(c: *mut u8, a: *mut u8, r: *mut u8) { unsafe { called(3, c, a, r) } }
static mut CTABLE: [extern "C" fn(*mut u8, *mut u8, *mut u8); 4] = [c0, c1, c2, c3];
static mut MSEEN: [(usize, i32); 2] = [(0, 0); 2];
extern "C" fn m0(c: *mut u8, n: i32) { unsafe { MSEEN[0] = (c as usize, n) } }
extern "C" fn m1(c: *mut u8, n: i32) { unsafe { MSEEN[1] = (c as usize, n) } }

/// sign and two 64-bit digits of a big integer, as i128 (checked to fit)
pub unsafe fn val(p: *const BigInt) -> i128 {
    let (s, d) = unsafe { (*p).to_u64_digits() };
    check(d.len() <= 2, "magnitude");
    let m = (if d.len() > 0 { d[0] as u128 } else { 0 }) | (if d.len() > 1 { (d[1] as u128) << 64 } else { 0 });
    check((m == 0) == (s == Sign::NoSign), "zero has no sign");
    if s == Sign::Minus { (m as i128).wrapping_neg() } else { m as i128 }
}
pub unsafe fn del(p: *const BigInt) { unsafe { __quantum__rt__bigint_update_reference_count(p, -1) } }

entries! {
    h_l01a {
        // storage of every element, every byte
        let es = [1, 2, 3, 4, 8, 16, 24][choice(7)];
        let (n, m) = (choice(4), choice(3));
        heap_mark();
        let a = __quantum__rt__array_create_1d(es as u32, n as u64);
        holds(a, es, &vec![0; es * n], "a new array has its size and is zero-filled");
        let b = __quantum__rt__array_create_1d(es as u32, m as u64);
        let x = fill(a, es, n);
        let y = fill(b, es, m);
        holds(a, es, &x, "every element keeps what was written to it");
        let c = __quantum__rt__array_concatenate(a, b);
        let mut z = x.clone();
        z.extend(&y);
        holds(c, es, &z, "concatenation has the elements of both in order");
        holds(a, es, &x, "concatenation leaves the first operand");
        holds(b, es, &y, "concatenation leaves the second operand");
        if n + m > 0 { *el(c, 0) ^= 1; z[0] ^= 1; }
        if n > 0 { *el(a, n - 1).add(es - 1) ^= 2; }
        holds(c, es, &z, "the concatenation is independent of its operands");
        let d = __quantum__rt__array_copy(c, true);
        __quantum__rt__array_update_reference_count(a, -1);
        __quantum__rt__array_update_reference_count(c, -1);
        holds(d, es, &z, "a copy has the same elements");
        holds(b, es, &y, "an array is unaffected by others");
        let e = __quantum__rt__array_concatenate(d, d);
        let mut w = z.clone();
        w.extend(&z);
        holds(e, es, &w, "an array concatenated with itself");
        __quantum__rt__array_update_reference_count(e, -1);
        __quantum__rt__array_update_reference_count(b, -1);
        __quantum__rt__array_update_reference_count(d, -1);
        drop((x, y, z, w));
        heap_check("array memory is returned");
    }
    h_l01b {
        // a byte count that no allocation can have
        let (es, n) = (bits(32), bits(64));
        assume(es as u128 * n as u128 > i64::MAX as u128);
        panic_mode(1);
        let _ = __quantum__rt__array_create_1d(es as u32, n);
        must_not_return("an array whose byte count is not representable is refused");
    }
    h_l01c {
        let s = [1u32, 2, 4, 8];
        let (i, j) = (choice(4), choice(4));
        let (n, m) = (choice(3), choice(3));
        let a = __quantum__rt__array_create_1d(s[i], n as u64);
        let b = __quantum__rt__array_create_1d(s[j], m as u64);
        if i != j { panic_mode(1); }
        let c = __quantum__rt__array_concatenate(a, b);
        if i != j { must_not_return("concatenating different element sizes fails"); }
        check(__quantum__rt__array_get_size_1d(c) as usize == n + m, "size of a concatenation");
    }
    h_l02a {
        // copies of arrays, tuples and callables under references and aliases
        let k = KINDS[choice(3)];
        let force = flag();
        let (al, dn, rf) = (choice(3) as i32, choice(3) as i32, choice(2) as i32);
        assume(dn <= al);
        heap_mark();
        let mut v = V::new(k);
        if k == Kind::Callable { v.b[1] = 0; if flag() { v.write(); } }
        v.alias(al);
        v.alias(-dn);
        v.refs(rf);
        let shared = !force && al == dn;
        let mut w = v.copy(force);
        if shared {
            check(w.p == v.p, "without force or aliases the same value is returned");
            v.refs(-1 - rf);
            w.ok("the copy's own reference keeps the value");
            w.refs(-1);
        } else {
            check(w.p != v.p, "with force or aliases another value is returned");
            w.ok("a copy has equal contents");
            w.write();
            v.ok("writing a copy does not change its source");
            w.ok("a copy can be written");
            v.write();
            w.ok("writing the source does not change its copy");
            v.ok("the source can be written");
            let second = flag();
            let x = w.copy(true);
            if second {
                v.alias(-(al - dn));
                v.refs(-1 - rf);
                w.ok("a copy outlives its source");
                w.refs(-1);
                x.ok("a copy of a copy outlives both");
                x.refs(-1);
            } else {
                w.refs(-1);
                x.ok("a copy of a copy outlives the copy");
                v.ok("the source outlives its copy");
                x.refs(-1);
                v.alias(-(al - dn));
                v.refs(-1 - rf);
            }
        }
        heap_check("copies return their memory");
    }
    h_l03a {
        // every range over small arrays
        let es = [1, 2, 8][choice(3)];
        let n = choice(if thorough() { 5 } else { 4 });
        let (start, step, end) = (int(), int(), int());
        let a = __quantum__rt__array_create_1d(es as u32, n as u64);
        let x = fill(a, es, n);
        let mut want = vec![];
        let mut fail = step == 0;
        let mut i = start as i128;
        while !fail {
            if if step > 0 { i > end as i128 } else { i < end as i128 } { break; }
            if i < 0 || i >= n as i128 { fail = true; break; }
            let k = if i == 0 { 0 } else if i == 1 { 1 } else if i == 2 { 2 } else { 3 };
            want.extend_from_slice(&x[k * es..(k + 1) * es]);
            i += step as i128;
        }
        if fail { panic_mode(1); }
        let s = quantum__rt__array_slice_1d(a, Range { start, step, end });
        if fail { must_not_return("a range outside the array fails"); }
        holds(s, es, &want, "a slice has exactly the elements of the range");
        holds(a, es, &x, "slicing leaves the source");
        if want.len() > 0 { *el(s, 0) ^= 1; holds(a, es, &x, "a slice is independent of its source"); }
    }
    h_l04a {
        // balanced sequences of count updates of every kind of value
        let k = KINDS[choice(5)];
        heap_mark();
        let mut v = V::new(k);
        if k == Kind::Callable { v.b[1] = 0; }
        let (mut r, mut a) = (1i32, 0i32);
        for _ in 0..if thorough() { 4 } else { 3 } {
            let n = choice(7) as i32 - 3;
            if v.aliasable() && flag() {
                assume(a + n >= 0);
                v.alias(n);
                a += n;
            } else {
                assume(r + n >= 1);
                v.refs(n);
                r += n;
            }
            v.ok("a value with references reads unchanged");
        }
        v.alias(-a);
        v.ok("a value with references reads unchanged");
        // one at a time or all at once
        if flag() { for _ in 0..r - 1 { v.refs(-1); v.ok("a value with references reads unchanged"); } v.refs(-1); } else { v.refs(-r); }
        heap_check("all memory is returned with the last reference");
    }
    h_l04b {
        // the last reference goes while aliases remain: the aliases keep only the box
        let k = KINDS[choice(3)];
        heap_mark();
        let v = V::new(k);
        let w = V::new(k);
        v.refs(2);
        v.alias(2);
        v.refs(-2);
        if k != Kind::Callable { v.ok("a value with references reads unchanged"); w.ok("other values are unaffected"); }
        v.alias(-1);
        v.alias(-1);
        v.refs(-1);
        if k != Kind::Callable { w.ok("other values are unaffected"); }
        w.refs(-1);
        heap_check("all memory is returned with the last reference");
    }
    h_l05a {
        let (n, m) = (choice(26), choice(3));
        heap_mark();
        let t = __quantum__rt__tuple_create(n as u64) as *mut u8;
        let s = __quantum__rt__tuple_create(m as u64 * 8) as *mut u8;
        for i in 0..n { check(*t.add(i) == 0, "a new tuple is zero"); }
        let mut b = [0u8; 26];
        for i in 0..n { b[i] = bits(8) as u8; *t.add(i) = b[i]; }
        for i in 0..m * 8 { check(*s.add(i) == 0, "writing a tuple does not change another"); *s.add(i) = 0x5a; }
        for i in 0..n { check(*t.add(i) == b[i], "a tuple keeps what was written to it"); }
        __quantum__rt__tuple_update_reference_count(t.cast(), 1);
        __quantum__rt__tuple_update_reference_count(s.cast(), -1);
        __quantum__rt__tuple_update_reference_count(t.cast(), -1);
        for i in 0..n { check(*t.add(i) == b[i], "a tuple is readable until its last reference is gone"); }
        __quantum__rt__tuple_update_reference_count(t.cast(), -1);
        heap_check("tuple memory is returned");
    }
    h_l05b {
        let n = bits(64);
        assume(n > i64::MAX as u64 - 8);
        panic_mode(1);
        let _ = __quantum__rt__tuple_create(n);
        must_not_return("a tuple whose size is not representable is refused");
    }
    h_l06a {
        // body and adjoint entries, any parity, with copies in between
        let n = choice(4);
        let cp = choice(3);
        let (cap, res) = (0x1230 as *mut u8, 0x4560 as *mut u8);
        let null = flag();
        CALLS = Vec::with_capacity(8);
        heap_mark();
        let mut c = __quantum__rt__callable_create(&raw mut CTABLE as *mut *mut u8, std::ptr::null_mut(), cap);
        for i in 0..n {
            if cp > 0 && i == 1 { let d = __quantum__rt__callable_copy(c, cp == 2); if cp == 2 { __quantum__rt__callable_make_adjoint(c); } __quantum__rt__callable_update_reference_count(c, -1); c = d; }
            __quantum__rt__callable_make_adjoint(c);
        }
        let t = __quantum__rt__tuple_create(16);
        let x = [bits(64), bits(64)];
        *(t as *mut u64) = x[0];
        *(t as *mut u64).add(1) = x[1];
        __quantum__rt__callable_invoke(c, if null { std::ptr::null_mut() } else { t.cast() }, res);
        check((&*(&raw const CALLS)).len() == 1, "exactly one specialisation is called once");
        let k = (&*(&raw const CALLS))[0].clone();
        check(k.which == n & 1, "body or adjoint by the parity of the adjoints");
        check(k.cap == cap as usize && k.res == res as usize, "capture and result tuples are passed on");
        check(k.null == null, "a missing argument tuple stays missing");
        if !null { check(k.args == x, "the arguments are passed on"); }
        drop(k);
        check(*(t as *mut u64) == x[0] && *(t as *mut u64).add(1) == x[1], "the caller's tuple is unchanged");
        __quantum__rt__tuple_update_reference_count(t, -1);
        __quantum__rt__callable_update_reference_count(c, -1);
        heap_check("invoking leaks nothing");
    }
    h_l06b {
        // nested controls
        let lv = choice(3) + 1;
        let adj = choice(3);
        let first = flag();
        let sz = [choice(3), if lv > 1 { choice(3) } else { 0 }, if lv > 2 { choice(2) } else { 0 }];
        CALLS = Vec::with_capacity(8);
        let mut keep: Vec<u64> = Vec::with_capacity(8);
        let mut want: Vec<u64> = Vec::with_capacity(8);
        heap_mark();
        let c = __quantum__rt__callable_create(&raw mut CTABLE as *mut *mut u8, std::ptr::null_mut(), 0x77 as *mut u8);
        if first { for _ in 0..adj { __quantum__rt__callable_make_adjoint(c); } }
        for _ in 0..lv { __quantum__rt__callable_make_controlled(c); }
        if !first { for _ in 0..adj { __quantum__rt__callable_make_adjoint(c); } }
        // innermost arguments, then one (controls, inner) tuple per level, outermost last
        let arg = bits(64);
        let mut inner: u64 = arg;
        let mut arrs = [std::ptr::null::<QirArray>(); 3];
        let mut tups = [std::ptr::null_mut::<*const Vec<u8>>(); 3];
        for l in (0..lv).rev() {
            let a = __quantum__rt__array_create_1d(8, sz[l] as u64);
            for i in 0..sz[l] { let x = bits(64); keep.push(x); (el(a, i) as *mut u64).write_unaligned(x); }
            let t = __quantum__rt__tuple_create(16);
            *(t as *mut u64) = a as u64;
            *(t as *mut u64).add(1) = inner;
            inner = t as u64;
            arrs[l] = a;
            tups[l] = t;
        }
        for l in 0..lv { for i in 0..sz[l] { want.push((el(arrs[l], i) as *const u64).read_unaligned()); } }
        let times = 1 + choice(2);
        for _ in 0..times { __quantum__rt__callable_invoke(c, tups[0].cast(), 0x99 as *mut u8); }
        check((&*(&raw const CALLS)).len() == times, "exactly one specialisation is called once");
        for k in (&*(&raw const CALLS)).iter() {
            check(k.which == 2 + (adj & 1), "the controlled or controlled-adjoint entry");
            check(k.cap == 0x77 && k.res == 0x99, "capture and result tuples are passed on");
            check(k.ctls.len() == want.len(), "the controls of all levels");
            for i in 0..want.len() { check(k.ctls[i] == want[i], "controls outermost first"); }
            check(k.args[0] == arg, "the innermost arguments");
        }
        for c in (&mut *(&raw mut CALLS)).iter_mut() { c.ctls = vec![]; }
        // nothing the caller owns has changed
        let mut inner = arg;
        let mut ki = 0;
        for l in (0..lv).rev() {
            check(*(tups[l] as *const u64) == arrs[l] as u64 && *(tups[l] as *const u64).add(1) == inner, "the caller's tuples are unchanged");
            check(__quantum__rt__array_get_size_1d(arrs[l]) as usize == sz[l], "the caller's control arrays are unchanged");
            for i in 0..sz[l] { check((el(arrs[l], i) as *const u64).read_unaligned() == keep[ki], "the caller's control arrays are unchanged"); ki += 1; }
            inner = tups[l] as u64;
        }
        for l in 0..lv { __quantum__rt__tuple_update_reference_count(tups[l], -1); __quantum__rt__array_update_reference_count(arrs[l], -1); }
        __quantum__rt__callable_update_reference_count(c, -1);
        heap_check("invoking leaks nothing");
    }
    h_l06c {
        // capture counts reach the memory-management table
        let mode = choice(5);
        let n = bits(32) as i32;
        let cap = 0x4440 as *mut u8;
        let (f0, f1) = (m0 as *mut u8, m1 as *mut u8);
        let z = std::ptr::null_mut();
        let mut tab = match mode { 1 => [f0, f1], 2 => [z, f1], 3 => [f0, z], _ => [z, z] };
        MSEEN = [(0, 0); 2];
        let c = __quantum__rt__callable_create(&raw mut CTABLE as *mut *mut u8, if mode == 0 { std::ptr::null_mut() } else { tab.as_mut_ptr() }, cap);
        __quantum__rt__capture_update_reference_count(c, n);
        let seen = MSEEN;
        check(seen[1] == (0, 0), "a reference count update does not call the alias entry");
        check(if mode == 1 || mode == 3 { seen[0] == (cap as usize, n) } else { seen[0] == (0, 0) }, "capture reference count");
        let k = bits(32) as i32;
        MSEEN = [(0, 0); 2];
        __quantum__rt__capture_update_alias_count(c, k);
        let seen = MSEEN;
        check(seen[0] == (0, 0), "an alias count update does not call the reference entry");
        check(if mode == 1 || mode == 2 { seen[1] == (cap as usize, k) } else { seen[1] == (0, 0) }, "capture alias count");
    }
    h_l07a {
        // one-word operands
        let op = choice(10);
        let (a, b) = (int(), int());
        let (x, y) = (a as i128, b as i128);
        heap_mark();
        let (p, q) = (__quantum__rt__bigint_create_i64(a), __quantum__rt__bigint_create_i64(b));
        check(val(p) == x && val(q) == y, "value of an integer");
        let (r, want) = match op {
            0 => (__quantum__rt__bigint_add(p, q), x + y),
            1 => (__quantum__rt__bigint_subtract(p, q), x - y),
            2 => (__quantum__rt__bigint_negate(p), -x),
            3 => (__quantum__rt__bigint_bitand(p, q), x & y),
            4 => (__quantum__rt__bigint_bitor(p, q), x | y),
            5 => (__quantum__rt__bigint_bitxor(p, q), x ^ y),
            6 => (__quantum__rt__bigint_bitnot(p), !x),
            7 => (__quantum__rt__bigint_create_i64(__quantum__rt__bigint_equal(p, q) as i64), (x == y) as i128),
            8 => (__quantum__rt__bigint_create_i64(__quantum__rt__bigint_greater(p, q) as i64), (x > y) as i128),
            _ => (__quantum__rt__bigint_create_i64(__quantum__rt__bigint_greater_eq(p, q) as i64), (x >= y) as i128),
        };
        check(val(r) == want, "exact result of an operation");
        check(val(p) == x && val(q) == y, "operands are not modified");
        del(r);
        del(q);
        del(p);
        heap_check("big integers return their memory");
    }
    h_l07g {
        // products; powers of two take another path, so one operand at a time
        let k = choice(17);
        // magnitudes with two bits set, at either end
        let num = || { let m = if flag() { bits(61) << 2 | 3 } else { bits(61) | 3 << 61 } as i64; if flag() { -m } else { m } };
        let a = num();
        let b = if k == 16 { num() } else { let p = 1u64 << [0, 1, 7, 31, 32, 33, 62, 63][k / 2]; if k % 2 == 0 { p as i64 } else { (p as i64).wrapping_neg() } };
        heap_mark();
        let (p, q) = (__quantum__rt__bigint_create_i64(a), __quantum__rt__bigint_create_i64(b));
        let (p, q) = if k < 16 && k % 4 < 2 { (q, p) } else { (p, q) };
        let r = __quantum__rt__bigint_multiply(p, q);
        let z = val(r);
        let m = a.unsigned_abs() as u128 * b.unsigned_abs() as u128;
        check(z.unsigned_abs() as u64 == m as u64, "low word of a product");
        check((z.unsigned_abs() >> 64) as u64 == (m >> 64) as u64, "high word of a product");
        check(z == 0 || (z < 0) == ((a < 0) != (b < 0)), "sign of a product");
        del(r);
        del(q);
        del(p);
        heap_check("big integers return their memory");
    }
    h_l07b {
        // division and remainder
        let a = int();
        let b = [1i64, -1, 2, -3, 7, 10, -1000, i64::MIN, i64::MAX, 0][choice(10)];
        let (p, q) = (__quantum__rt__bigint_create_i64(a), __quantum__rt__bigint_create_i64(b));
        if b == 0 {
            panic_mode(1);
            if flag() { let _ = __quantum__rt__bigint_divide(p, q); } else { let _ = __quantum__rt__bigint_modulus(p, q); }
            must_not_return("division by zero fails");
        }
        let (d, m) = (__quantum__rt__bigint_divide(p, q), __quantum__rt__bigint_modulus(p, q));
        let (d, m) = (val(d), val(m));
        check(d.unsigned_abs() as u64 == a.unsigned_abs() / b.unsigned_abs(), "magnitude of the truncated quotient");
        check(d == 0 || (d < 0) == ((a < 0) != (b < 0)), "sign of the quotient");
        check(m.unsigned_abs() as u64 == a.unsigned_abs() % b.unsigned_abs(), "magnitude of the remainder");
        check(m == 0 || (m < 0) == (a < 0), "the remainder has the sign of the dividend");
        check(d >> 64 == 0 || d >> 64 == -1, "a quotient of one word");
        check(m >> 64 == 0 || m >> 64 == -1, "a remainder of one word");
    }
    h_l07f {
        // small dividends and divisors, every pair
        let b = choice(16) as i64 - 8;
        let a = bits(9) as i64 - 256;
        assume(b != 0);
        let (p, q) = (__quantum__rt__bigint_create_i64(a), __quantum__rt__bigint_create_i64(b));
        let (d, m) = (__quantum__rt__bigint_divide(p, q), __quantum__rt__bigint_modulus(p, q));
        let (d, m) = (val(d), val(m));
        let s = a.unsigned_abs() as i64 / b.unsigned_abs() as i64;
        check(d as i64 == if (a < 0) != (b < 0) { -s } else { s }, "truncating division");
        let t = a.unsigned_abs() as i64 % b.unsigned_abs() as i64;
        check(m as i64 == if a < 0 { -t } else { t }, "remainder with the sign of the dividend");
    }
    h_l07c {
        // shifts across words; amounts of either width
        let a = int();
        let n = choice(71) as u64;
        let p = __quantum__rt__bigint_create_i64(a);
        if n == 70 {
            let r = __quantum__rt__bigint_shiftright(p, { let n = bits(64); assume(n >= 64); n });
            check(val(r) == if a < 0 { -1 } else { 0 }, "floor right shift by any amount");
            return;
        }
        let l = __quantum__rt__bigint_shiftleft(p, n);
        if n < 63 { check(val(l) == (a as i128) << n, "left shift"); }
        let back = __quantum__rt__bigint_shiftright(l, n);
        check(val(back) == a as i128, "left shift and back");
        let r = __quantum__rt__bigint_shiftright(p, n);
        check(val(r) == (a as i128) >> n, "floor right shift");
        check(val(p) == a as i128, "operands are not modified");
    }
    h_l07d {
        // powers of a small base
        let e = choice(10) as u32;
        let b = (if flag() { -1i64 } else { 1 }) * bits(4) as i64;
        let p = __quantum__rt__bigint_create_i64(b);
        let r = __quantum__rt__bigint_power(p, e);
        let mut w = 1i128;
        for _ in 0..e { w *= b as i128; }
        check(val(r) == w, "power");
    }
    h_l07e {
        // two-word operands against one- and two-word ones
        let op = choice(8);
        let mut d = [0u8; 16];
        let x = (bits(64) as u128 | (bits(60) as u128) << 64) as i128;
        let x = if flag() { -x } else { x };
        d.copy_from_slice(&x.to_le_bytes());
        let p = __quantum__rt__bigint_create_array(16, d.as_ptr());
        let y = if !thorough() || flag() { int() as i128 } else { let y = (bits(64) as u128 | (bits(60) as u128) << 64) as i128; if flag() { -y } else { y } };
        d.copy_from_slice(&y.to_le_bytes());
        let q = __quantum__rt__bigint_create_array(16, d.as_ptr());
        let (r, want) = match op {
            0 => (__quantum__rt__bigint_add(p, q), x + y),
            1 => (__quantum__rt__bigint_subtract(p, q), x - y),
            2 => (__quantum__rt__bigint_negate(p), -x),
            3 => (__quantum__rt__bigint_bitand(p, q), x & y),
            4 => (__quantum__rt__bigint_bitor(p, q), x | y),
            5 => (__quantum__rt__bigint_bitxor(p, q), x ^ y),
            6 => { check(__quantum__rt__bigint_equal(p, q) == (x == y), "equality"); (p, x) }
            _ => { check(__quantum__rt__bigint_greater(p, q) == (x > y), "greater"); check(__quantum__rt__bigint_greater_eq(p, q) == (x >= y), "greater or equal"); (q, y) }
        };
        check(val(r) == want, "exact result of an operation");
        check(val(p) == x && val(q) == y, "operands are not modified");
    }
    h_l07h {
        // two-word values: right shifts, and divisions near a multiple of one- and two-word divisors
        let k = choice(9);
        let mut d = [0u8; 16];
        if k == 0 {
            let x = (bits(64) as u128 | (bits(60) as u128) << 64) as i128;
            let x = if flag() { -x } else { x };
            d.copy_from_slice(&x.to_le_bytes());
            let n = [0usize, 1, 13, 63, 64, 65, 100, 127, 128, 129][choice(10)];
            let r = __quantum__rt__bigint_shiftright(__quantum__rt__bigint_create_array(16, d.as_ptr()), n as u64);
            check(val(r) == x >> n.min(127), "floor right shift");
            return;
        }
        let y = [3i128, 1 << 64, (1 << 64) + 1, -(1 << 65) + 7, 0xfedc_ba98_7654_3210_0123, -12345678901234567890123, (1 << 63) - 1, -(1 << 32)][k - 1];
        let t = [1i128, 5, -1000, 77777][choice(4)];
        let x = y * t + [0, y / 2][choice(2)] + bits(6) as i128 - 32;
        d.copy_from_slice(&x.to_le_bytes());
        let p = __quantum__rt__bigint_create_array(16, d.as_ptr());
        d.copy_from_slice(&y.to_le_bytes());
        let q = __quantum__rt__bigint_create_array(16, d.as_ptr());
        let (r, m) = (__quantum__rt__bigint_divide(p, q), __quantum__rt__bigint_modulus(p, q));
        let (r, m) = (val(r), val(m));
        // the quotient and remainder are the only numbers with these three properties
        check(r * y + m == x, "quotient times divisor plus remainder");
        check(if y < 0 { m > y && m < -y } else { m > -y && m < y }, "the remainder is smaller than the divisor");
        check(m == 0 || (m < 0) == (x < 0), "the remainder has the sign of the dividend");
        check(val(p) == x && val(q) == y, "operands are not modified");
    }
    h_l08a {
        // any byte string
        let n = choice(if thorough() { 18 } else { 11 });
        let mut b = [0u8; 18];
        for i in 0..n { b[i] = bits(8) as u8; }
        let p = __quantum__rt__bigint_create_array(n as u32, b.as_ptr());
        // the shortest form of the same value
        let mut k = n;
        while k > 1 && ((b[k - 1] == 0 && b[k - 2] & 0x80 == 0) || (b[k - 1] == 0xff && b[k - 2] & 0x80 != 0)) { k -= 1; }
        if n == 0 { k = 1; }
        check(__quantum__rt__bigint_get_length(p) as usize == k, "length of the shortest form");
        let d = __quantum__rt__bigint_get_data(p);
        for i in 0..k { check(*d.add(i) == b[i], "bytes of the shortest form"); }
        let q = __quantum__rt__bigint_create_array(k as u32, d);
        check(__quantum__rt__bigint_equal(p, q), "an equal value is created from the bytes");
    }
    h_l08b {
        let a = int();
        let p = __quantum__rt__bigint_create_i64(a);
        let n = __quantum__rt__bigint_get_length(p) as usize;
        let d = __quantum__rt__bigint_get_data(p);
        check(n >= 1 && n <= 8, "length of an integer's bytes");
        let mut v = if *d.add(n - 1) & 0x80 != 0 { -1i64 } else { 0 };
        for i in (0..n).rev() { v = v << 8 | *d.add(i) as i64; }
        check(v == a, "bytes of an integer");
        if n > 1 { check(!(*d.add(n - 1) == 0 && *d.add(n - 2) < 0x80) && !(*d.add(n - 1) == 0xff && *d.add(n - 2) >= 0x80), "no redundant byte"); }
    }
    h_l12a {
        // classification and elementary functions of every double
        let x = f64::from_bits(bits(64));
        let y = f64::from_bits(bits(64));
        let (e, m) = (x.to_bits() >> 52 & 0x7ff, x.to_bits() << 12);
        check(__quantum__qis__isnan__body(x) == (e == 0x7ff && m != 0), "isnan");
        check(__quantum__qis__isinf__body(x) == (x.to_bits() == 0x7ff0_0000_0000_0000), "isinf is true of positive infinity only");
        check(__quantum__qis__isnegativeinfinity__body(x) == (x.to_bits() == 0xfff0_0000_0000_0000), "isnegativeinfinity");
        let n = __quantum__qis__nan__body().to_bits();
        check(n >> 52 & 0x7ff == 0x7ff && n << 12 != 0, "nan");
        check(__quantum__qis__infinity__body().to_bits() == 0x7ff0_0000_0000_0000, "infinity");
        let f = choice(13);
        let (got, want) = match f {
            0 => (__quantum__qis__sin__body(x), x.sin()),
            1 => (__quantum__qis__cos__body(x), x.cos()),
            2 => (__quantum__qis__tan__body(x), x.tan()),
            3 => (__quantum__qis__sinh__body(x), x.sinh()),
            4 => (__quantum__qis__cosh__body(x), x.cosh()),
            5 => (__quantum__qis__tanh__body(x), x.tanh()),
            6 => (__quantum__qis__arcsin__body(x), x.asin()),
            7 => (__quantum__qis__arccos__body(x), x.acos()),
            8 => (__quantum__qis__arctan__body(x), x.atan()),
            9 => (__quantum__qis__sqrt__body(x), x.sqrt()),
            10 => (__quantum__qis__log__body(x), x.ln()),
            11 => (__quantum__qis__arctan2__body(y, x), y.atan2(x)),
            _ => (__quantum__qis__arctan2__body(x, y), x.atan2(y)),
        };
        check(got.to_bits() == want.to_bits() || (got.is_nan() && want.is_nan()), "the named function of the arguments");
    }
    h_l12b {
        // ieeeremainder: x = (n + f) y with |f| <= 1/2; ties go to the even quotient
        let n = choice(9) as i64 - 4;
        let y = [0.25, 1.0, 2.0, -1.0, -8.0, 3.0][choice(6)];
        let f = match choice(4) { 0 => 0.5, 1 => -0.5, 2 => 0.0, _ => { let f = real(-0.5, 0.5); assume(f.abs() < 0.5); f } };
        let x = (n as f64 + f) * y;
        let r = __quantum__qis__ieeeremainder__body(x, y);
        // the quotient moves to the even neighbour on a tie
        let want = if (f == 0.5 || f == -0.5) && n % 2 != 0 { -f * y } else { f * y };
        near(r, want, 1e-6, "remainder of the nearest integer quotient, ties to even");
    }
    h_l12c {
        // the mathematical functions that take several steps are exact on every double where they are defined by one
        let x = f64::from_bits(bits(64));
        let y = f64::from_bits(bits(64));
        assume(!x.is_nan() && !y.is_nan());
        let r = __quantum__qis__ieeeremainder__body(x, y);
        check(y != 0.0 || r.is_nan(), "no remainder by zero");
    }
    h_l13a {
        let (a, b) = (int(), int());
        if a > b { panic_mode(1); }
        let r = __quantum__qis__drawrandomint__body(a, b);
        if a > b { must_not_return("a minimum above the maximum fails"); }
        check(a <= r && r <= b, "the drawn integer is inside the closed range");
    }
    h_l13c {
        // every value of a small range, and every quarter of a wide one, can be drawn
        let k = choice(12);
        let (a, b) = [(0i64, 1), (4, 5), (-1, 1), (-3, 0), (i64::MAX - 2, i64::MAX), (i64::MIN, i64::MIN + 1), (7, 7), (i64::MIN, i64::MAX), (-5, i64::MAX), (0, i64::MAX), (i64::MIN, 0), (1, 1 << 40)][k];
        goal("first"); goal("second"); goal("third"); goal("fourth");
        let r = __quantum__qis__drawrandomint__body(a, b);
        check(a <= r && r <= b, "the drawn integer is inside the closed range");
        let (o, w) = ((r as i128 - a as i128) as u128, (b as i128 - a as i128) as u128);
        let lim = |i: u128| if w < 4 { i.min(w) } else { (w + 1) / 4 * i };
        let hit = |i: u128| if w < 4 { o == lim(i) } else { o >= lim(i) && o < lim(i + 1) };
        if hit(0) { reached("first"); }
        if hit(1) { reached("second"); }
        if hit(2) { reached("third"); }
        if hit(3) { reached("fourth"); }
    }
    h_l13d {
        let k = choice(4);
        let (a, b) = [(0.0, 1.0), (-3.0, 5.0), (1e10, 2e10), (-0.25, 0.0)][k];
        goal("first"); goal("second"); goal("third"); goal("fourth");
        let r = __quantum__qis__drawrandomdouble__body(a, b);
        let q = (b - a) / 4.0;
        if r < a + q { reached("first"); }
        if r > a + q && r < a + 2.0 * q { reached("second"); }
        if r > a + 2.0 * q && r < a + 3.0 * q { reached("third"); }
        if r > a + 3.0 * q { reached("fourth"); }
    }
    h_l13b {
        let (a, b) = (f64::from_bits(bits(64)), f64::from_bits(bits(64)));
        assume(a.abs() <= 1e300 && b.abs() <= 1e300);
        if a > b { panic_mode(1); }
        let r = __quantum__qis__drawrandomdouble__body(a, b);
        if a > b { must_not_return("a minimum above the maximum fails"); }
        check(a <= r && r <= b, "the drawn double is inside the closed range");
    }
}
#[allow(unused)]
fn _u(_: CString) {}
