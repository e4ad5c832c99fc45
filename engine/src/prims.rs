//! Environment: intrinsics, allocator, libm, and the harness primitives.
use crate::exec::*;
use crate::fl::{self, VK};
use crate::ir::Ty;
use crate::mem::*;
use crate::term::{self, BOp, COp, FOp, N, T};
use std::collections::HashMap;
use std::rc::Rc;

type A<'a> = &'a [(Ty, Val)];
type Prim = fn(&mut Engine, &mut State, A, &Ty) -> X<Val>;

fn u(st: &State, a: A, i: usize) -> X<u64> { st.conc(&a[i].1, 64) }
fn me<R>(r: MR<R>) -> X<R> { r.map_err(Stop::Mem) }
pub fn text(st: &State, p: u64, n: u64) -> X<String> { let b = me(st.mem.bytes(p, n))?; Ok(String::from_utf8_lossy(&b).to_string()) }

fn p_nop(_: &mut Engine, _: &mut State, _: A, _: &Ty) -> X<Val> { Ok(Val::U) }
fn p_zero(_: &mut Engine, _: &mut State, _: A, _: &Ty) -> X<Val> { Ok(Val::C(0)) }
fn p_arg0(_: &mut Engine, _: &mut State, a: A, _: &Ty) -> X<Val> { Ok(a[0].1.clone()) }
fn big(n: u64) -> bool { n > 1 << 28 }
/// a size to allocate; none when it is more than the allocator of this setting gives
fn asz(st: &mut State, v: &Val) -> X<Option<u64>> {
    if st.decide(&icmp(crate::ir::Pred::Ugt, 64, v, &Val::C(1 << 28)))? { return Ok(None); }
    st.conc(v, 64).map(Some)
}
fn p_malloc(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let Some(n) = asz(st, &a[0].1)? else { return Ok(Val::C(0)) }; Ok(Val::C(st.mem.alloc(n, Kind::Heap, 0xAA, st.mark))) }
fn p_calloc(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let (Some(n), Some(m)) = (asz(st, &a[0].1)?, asz(st, &a[1].1)?) else { return Ok(Val::C(0)) }; match n.checked_mul(m) { Some(n) if !big(n) => Ok(Val::C(st.mem.alloc(n, Kind::Heap, 0, st.mark))), _ => Ok(Val::C(0)) } }
fn p_memalign(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let p = u(st, a, 0)?; let Some(n) = asz(st, &a[2].1)? else { return Ok(Val::C(12)) }; let x = st.mem.alloc(n, Kind::Heap, 0xAA, st.mark); me(st.mem.store(p, 8, &Val::C(x)))?; Ok(Val::C(0)) }
fn p_aligned(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let Some(n) = asz(st, &a[1].1)? else { return Ok(Val::C(0)) }; Ok(Val::C(st.mem.alloc(n, Kind::Heap, 0xAA, st.mark))) }
fn p_free(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let p = u(st, a, 0)?; if p != 0 { me(st.mem.free(p))?; } Ok(Val::U) }
fn p_realloc(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let p = u(st, a, 0)?;
    let Some(n) = asz(st, &a[1].1)? else { return Ok(Val::C(0)) };
    let x = st.mem.alloc(n, Kind::Heap, 0xAA, st.mark);
    if p != 0 {
        let old = { let (o, off) = me(st.mem.obj(p))?; if off != 0 { return Err(Stop::Mem("realloc of an interior pointer".into())); } o.data.len() as u64 };
        me(st.mem.copy(x, p, old.min(n)))?;
        me(st.mem.free(p))?;
    }
    Ok(Val::C(x))
}
fn p_memcpy(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let (d, s, n) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?); me(st.mem.copy(d, s, n))?; Ok(a[0].1.clone()) }
fn p_memset(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (d, n) = (u(st, a, 0)?, u(st, a, 2)?);
    let b = match &a[1].1 { Val::T(t) => Val::of(term::extract(*t, 0, 8)), Val::C(x) => Val::C(x & 255), x => x.clone() };
    me(st.mem.fill(d, &b, n))?;
    Ok(a[0].1.clone())
}
fn p_bcmp(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { cmpmem(st, a, false) }
fn p_memcmp(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { cmpmem(st, a, true) }
fn cmpmem(st: &mut State, a: A, order: bool) -> X<Val> {
    let (p, q, n) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?);
    if n == 0 { return Ok(Val::C(0)); }
    match (st.mem.bytes(p, n), st.mem.bytes(q, n)) {
        (Ok(x), Ok(y)) => return Ok(Val::C(match x.cmp(&y) { std::cmp::Ordering::Less => 0xffff_ffff, std::cmp::Ordering::Equal => 0, _ => 1 })),
        (Err(e), _) | (_, Err(e)) if e != "SYMBOLIC" => return Err(Stop::Mem(e)),
        _ => {}
    }
    let mut r = term::k(0, 32);
    for i in (0..n).rev() {
        let x = me(st.mem.load(p + i, 1))?.term(8);
        let y = me(st.mem.load(q + i, 1))?.term(8);
        let ne = if order { term::ite(term::cmp(COp::Ult, x, y), term::k(0xffff_ffff, 32), term::k(1, 32)) } else { term::k(1, 32) };
        r = term::ite(term::eq(x, y), r, ne);
    }
    Ok(Val::of(r))
}
fn p_strlen(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let p = u(st, a, 0)?;
    let mut n = 0;
    loop {
        let b = me(st.mem.load(p + n, 1))?;
        let z = st.decide(&icmp(crate::ir::Pred::Eq, 8, &b, &Val::C(0)))?;
        if z { return Ok(Val::C(n)); }
        n += 1;
    }
}

// ---- integer intrinsics
fn vecmap(a: A, ret: &Ty, f: &dyn Fn(&[Val], u32) -> X<Val>) -> X<Val> {
    if let Ty::Vec(n, t) = ret {
        let w = tyw(t);
        let mut o = vec![];
        for i in 0..*n as usize { let xs: Vec<Val> = a.iter().map(|x| match &x.1 { Val::V(v) => v[i].clone(), y => y.clone() }).collect(); o.push(f(&xs, w)?); }
        return Ok(Val::V(Rc::new(o)));
    }
    let xs: Vec<Val> = a.iter().map(|x| x.1.clone()).collect();
    f(&xs, tyw(ret))
}
fn p_ctpop(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| Ok(match &x[0] { Val::C(v) => Val::C(v.count_ones() as u64), Val::W(v) => Val::W(v.count_ones() as u128), v => { let t = v.term(w); let mut s = term::k(0, w); for i in 0..w { s = term::bin(BOp::Add, s, term::zext(term::extract(t, i, 1), w)); } Val::of(s) } }))
}
fn p_ctlz(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| Ok(match &x[0] { Val::C(v) => Val::C(if *v == 0 { w as u64 } else { v.leading_zeros() as u64 - (64 - w as u64) }), Val::W(v) => Val::W(v.leading_zeros() as u128), v => { let t = v.term(w); let mut s = term::k(w as u128, w); for i in 0..w { s = term::ite(term::extract(t, i, 1), term::k((w - 1 - i) as u128, w), s); } Val::of(s) } }))
}
fn p_cttz(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| Ok(match &x[0] { Val::C(v) => Val::C(if *v == 0 { w as u64 } else { v.trailing_zeros() as u64 }), Val::W(v) => Val::W(if *v == 0 { w as u128 } else { v.trailing_zeros() as u128 }), v => { let t = v.term(w); let mut s = term::k(w as u128, w); for i in (0..w).rev() { s = term::ite(term::extract(t, i, 1), term::k(i as u128, w), s); } Val::of(s) } }))
}
fn p_bswap(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| { let t = x[0].term(w); let n = w / 8; let mut s = term::extract(t, 0, 8); for i in 1..n { s = term::concat(s, term::extract(t, i * 8, 8)); } Ok(Val::of(s)) })
}
fn p_bitrev(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| { let t = x[0].term(w); let mut s = term::extract(t, 0, 1); for i in 1..w { s = term::concat(s, term::extract(t, i, 1)); } Ok(Val::of(s)) })
}
fn minmax(a: A, r: &Ty, signed: bool, max: bool) -> X<Val> {
    vecmap(a, r, &|x, w| {
        let (p, q) = (x[0].term(w), x[1].term(w));
        let lt = term::cmp(if signed { COp::Slt } else { COp::Ult }, p, q);
        Ok(Val::of(if max { term::ite(lt, q, p) } else { term::ite(lt, p, q) }))
    })
}
fn p_umax(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { minmax(a, r, false, true) }
fn p_umin(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { minmax(a, r, false, false) }
fn p_smax(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { minmax(a, r, true, true) }
fn p_smin(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { minmax(a, r, true, false) }
fn p_iabs(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { vecmap(a, r, &|x, w| { let p = x[0].term(w); let n = term::cmp(COp::Slt, p, term::k(0, w)); Ok(Val::of(term::ite(n, term::bin(BOp::Sub, term::k(0, w), p), p))) }) }
fn p_fshl(_: &mut Engine, st: &mut State, a: A, r: &Ty) -> X<Val> { let _ = &st; vecmap(a, r, &|x, w| { let k = match &x[2] { Val::C(k) => (*k % w as u64) as u32, _ => return Err(Stop::Unsup("fshl by symbolic amount".into())) }; let c = term::concat(x[0].term(w), x[1].term(w)); Ok(Val::of(term::extract(c, w - k, w))) }) }
fn p_fshr(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { vecmap(a, r, &|x, w| { let k = match &x[2] { Val::C(k) => (*k % w as u64) as u32, _ => return Err(Stop::Unsup("fshr by symbolic amount".into())) }; let c = term::concat(x[0].term(w), x[1].term(w)); Ok(Val::of(term::extract(c, k, w))) }) }
fn p_uaddsat(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { vecmap(a, r, &|x, w| { let s = term::bin(BOp::Add, x[0].term(w), x[1].term(w)); let o = term::cmp(COp::Ult, s, x[0].term(w)); Ok(Val::of(term::ite(o, term::k(term::mask(w), w), s))) }) }
fn p_usubsat(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { vecmap(a, r, &|x, w| { let (p, q) = (x[0].term(w), x[1].term(w)); Ok(Val::of(term::ite(term::cmp(COp::Ule, p, q), term::k(0, w), term::bin(BOp::Sub, p, q)))) }) }
fn p_ssat(add: bool, a: A, r: &Ty) -> X<Val> {
    vecmap(a, r, &|x, w| {
        let (p, q) = (term::sext(x[0].term(w), w + 1), term::sext(x[1].term(w), w + 1));
        let s = term::bin(if add { BOp::Add } else { BOp::Sub }, p, q);
        let mx = term::k(term::mask(w - 1), w + 1);
        let mn = term::sext(term::k(1u128 << (w - 1), w), w + 1);
        let t = term::ite(term::cmp(COp::Slt, mx, s), mx, term::ite(term::cmp(COp::Slt, s, mn), mn, s));
        Ok(Val::of(term::extract(t, 0, w)))
    })
}
fn p_saddsat(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { p_ssat(true, a, r) }
fn p_ssubsat(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { p_ssat(false, a, r) }
fn ovf(a: A, ret: &Ty, op: BOp, signed: bool) -> X<Val> {
    let w = match ret { Ty::Struct(f, _) => tyw(&f[0]), _ => 64 };
    let (p, q) = (a[0].1.term(w), a[1].1.term(w));
    let r = term::bin(op, p, q);
    let o = match (op, signed) {
        (BOp::Add, false) => term::cmp(COp::Ult, r, p),
        (BOp::Sub, false) => term::cmp(COp::Ult, p, q),
        (BOp::Mul, _) => {
            if let (Some(x), Some(y)) = (term::as_k(p), term::as_k(q)) {
                if signed { let v = term::sx(x, w).checked_mul(term::sx(y, w)); term::k((v.is_none() || term::sx(v.unwrap() as u128 & term::mask(w), w) != v.unwrap()) as u128, 1) } else { term::k(match x.checked_mul(y) { Some(v) => (v > term::mask(w)) as u128, None => 1 }, 1) }
            } else if w <= 64 {
                // multiplication by a constant: compare against the quotient bound
                if let (false, Some(c)) = (signed, term::as_k(q).or(term::as_k(p))) {
                    let x = if term::as_k(q).is_some() { p } else { q };
                    if c == 0 { term::ff() } else { term::cmp(COp::Ult, term::k(term::mask(w) / c, w), x) }
                } else {
                    let e = |t: T| if signed { term::sext(t, 2 * w) } else { term::zext(t, 2 * w) };
                    let f = term::bin(BOp::Mul, e(p), e(q));
                    let back = e(term::extract(f, 0, w));
                    term::not(term::eq(f, back))
                }
            } else { return Err(Stop::Unsup("128-bit overflow multiply".into())); }
        }
        (_, true) => {
            let s = |t: T| term::extract(t, w - 1, 1);
            let x = if op == BOp::Add { term::not(term::bin(BOp::Xor, s(p), s(q))) } else { term::bin(BOp::Xor, s(p), s(q)) };
            term::and(x, term::bin(BOp::Xor, s(p), s(r)))
        }
        _ => unreachable!(),
    };
    Ok(Val::V(Rc::new(vec![Val::of(r), Val::of(o)])))
}
fn p_uaddo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Add, false) }
fn p_usubo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Sub, false) }
fn p_umulo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Mul, false) }
fn p_saddo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Add, true) }
fn p_ssubo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Sub, true) }
fn p_smulo(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { ovf(a, r, BOp::Mul, true) }
fn p_addcarry(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { carry(a, r, BOp::Add) }
fn p_subborrow(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { carry(a, r, BOp::Sub) }
fn carry(a: A, r: &Ty, op: BOp) -> X<Val> {
    let (ci, w) = match r { Ty::Struct(f, _) => (tyw(&f[0]), tyw(&f[1])), _ => (8, 64) };
    let c = term::zext(term::not(term::eq(a[0].1.term(8), term::k(0, 8))), w + 1);
    let (p, q) = (term::zext(a[1].1.term(w), w + 1), term::zext(a[2].1.term(w), w + 1));
    let s = term::bin(op, term::bin(op, p, q), c);
    Ok(Val::V(Rc::new(vec![Val::of(term::zext(term::extract(s, w, 1), ci)), Val::of(term::extract(s, 0, w))])))
}
fn cmp3(a: A, r: &Ty, signed: bool) -> X<Val> {
    let w = tyw(&a[0].0);
    let rw = tyw(r);
    let (p, q) = (a[0].1.term(w), a[1].1.term(w));
    let lt = term::cmp(if signed { COp::Slt } else { COp::Ult }, p, q);
    Ok(Val::of(term::ite(lt, term::k(term::mask(rw), rw), term::ite(term::eq(p, q), term::k(0, rw), term::k(1, rw)))))
}
fn p_ucmp(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { cmp3(a, r, false) }
fn p_scmp(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { cmp3(a, r, true) }
fn p_loadrel(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (p, o) = (u(st, a, 0)?, u(st, a, 1)?);
    let v = me(st.mem.load(p.wrapping_add(o), 4))?;
    let v = st.conc(&v, 32)?;
    let (d, l) = ((v as u32 as i32 >> 16) as i64, v as u16 as i16 as i64);
    Ok(Val::C((((p >> 32) as i64 + d) as u64) << 32 | ((p & 0xffff_ffff) as i64 + l) as u64 & 0xffff_ffff))
}
fn p_trap(e: &mut Engine, st: &mut State, _: A, _: &Ty) -> X<Val> { let w = e.wher(st); Err(Stop::Panic(format!("abort at {}", w))) }
fn p_reduce_or(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { let w = tyw(r); match &a[0].1 { Val::V(v) => { let mut s = v[0].term(w); for x in &v[1..] { s = term::bin(BOp::Or, s, x.term(w)); } Ok(Val::of(s)) } _ => Ok(Val::U) } }
fn p_reduce_add(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { let w = tyw(r); match &a[0].1 { Val::V(v) => { let mut s = v[0].term(w); for x in &v[1..] { s = term::bin(BOp::Add, s, x.term(w)); } Ok(Val::of(s)) } _ => Ok(Val::U) } }
fn p_reduce_and(_: &mut Engine, _: &mut State, a: A, r: &Ty) -> X<Val> { let w = tyw(r); match &a[0].1 { Val::V(v) => { let mut s = v[0].term(w); for x in &v[1..] { s = term::bin(BOp::And, s, x.term(w)); } Ok(Val::of(s)) } _ => Ok(Val::U) } }

// ---- floats
fn p_fabs(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { funary(FOp::Abs, &a[0].1, &st.fx) }
fn p_sqrt(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { funary(FOp::Sqrt, &a[0].1, &st.fx) }
fn p_fmax(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { fbin(FOp::Max, &a[0].1, &a[1].1, &st.fx) }
fn p_fmin(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { fbin(FOp::Min, &a[0].1, &a[1].1, &st.fx) }
const ROUND_MAX: f64 = 4.0;
/// a real polynomial to an integer: one case per value
pub fn toint(a: &Val, w: u32, signed: bool, st: &State) -> X<Val> {
    match roundp(FOp::Trunc, a, st)? {
        Val::C(k) => { let k = f64::from_bits(k); Ok(Val::C(if signed { k as i64 as u64 } else { k as u64 } & term::mask(w) as u64)) }
        _ => Err(Stop::Unsup("symbolic real to integer".into())),
    }
}
/// the remainder of a real polynomial by a constant: one case per quotient
pub fn fremp(a: &Val, b: &Val, st: &mut State) -> X<Val> {
    match (fval(a, &st.fx), fval(b, &st.fx)) {
        (FV::C(x), FV::C(y)) => Ok(Val::C((x % y).to_bits())),
        (FV::P(p), FV::C(m)) if m.is_finite() && m != 0.0 => {
            let q = roundp(FOp::Trunc, &Val::F(fl::scale(p, 1.0 / m.abs())), st)?;
            let Val::C(k) = q else { return Err(Stop::Unsup("remainder of a real".into())); };
            Ok(Val::F(st.fx.norm(fl::sub(p, fl::cst(f64::from_bits(k) * m.abs())))))
        }
        (FV::P(_), FV::C(m)) if m.is_infinite() => Ok(a.clone()),
        (FV::P(_), _) | (_, FV::P(_)) => Err(Stop::Unsup("remainder of a real".into())),
        _ => Ok(Val::of(term::uf("frem", vec![a.term(64), b.term(64)], 64))),
    }
}
fn l_fmod(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let (x, y) = (a[0].1.clone(), a[1].1.clone()); fremp(&x, &y, st) }
/// rounding of a real polynomial with known bounds: one case per integer
fn roundp(op: FOp, a: &Val, st: &State) -> X<Val> {
    if let FV::P(f) = fval(a, &st.fx) {
        if fl::as_const(f).is_none() {
            let (mut lo, mut hi) = fl::bounds(f);
            if !(hi - lo <= 64.0 && lo.abs() <= 1e9) {
                // unbounded (an angle): the cases around zero, the rest is cut
                let k = ROUND_MAX;
                if st.decide_t(fl::less(f, fl::cst(-k), true))? || st.decide_t(fl::less(fl::cst(k), f, true))? { return Err(Stop::Cut("rounding of a large real".into())); }
                lo = -k; hi = k;
            }
            let mut k = lo.floor() - 1.0;
            while k <= hi.ceil() + 1.0 {
                let up = match op { FOp::Floor => k + 1.0, FOp::Ceil => k, FOp::Trunc => if k < 0.0 { k } else { k + 1.0 }, _ => k + 0.5 };
                let t = fl::cst(up);
                let d = fl::sub(f, t);
                if st.decide_t(fl::less(f, t, true))? { return Ok(Val::C(k.to_bits())); }
                if st.decide_t(fl::lit(fl::LK::Zero, d))? {
                    let here = match op { FOp::Ceil => true, FOp::Floor => false, FOp::Trunc => k < 0.0, FOp::RoundEven => k % 2.0 == 0.0, _ => k < 0.0 };
                    return Ok(Val::C((if here { k } else { k + 1.0 }).to_bits()));
                }
                k += 1.0;
            }
            return Err(Stop::Unsup("rounding of a real".into()));
        }
    }
    funary(op, a, &st.fx)
}
fn p_round(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { roundp(FOp::RoundAway, &a[0].1, st) }
fn p_roundeven(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { roundp(FOp::RoundEven, &a[0].1, st) }
fn p_ftrunc(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { roundp(FOp::Trunc, &a[0].1, st) }
fn p_floor(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { roundp(FOp::Floor, &a[0].1, st) }
fn p_ceil(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { roundp(FOp::Ceil, &a[0].1, st) }
fn p_fma(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    if let (Val::C(x), Val::C(y), Val::C(z)) = (&a[0].1, &a[1].1, &a[2].1) { return Ok(Val::C(f64::from_bits(*x).mul_add(f64::from_bits(*y), f64::from_bits(*z)).to_bits())); }
    let m = fbin(FOp::Mul, &a[0].1, &a[1].1, &st.fx)?;
    fbin(FOp::Add, &m, &a[2].1, &st.fx)
}
fn p_copysign(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    match (fval(&a[0].1, &st.fx), fval(&a[1].1, &st.fx)) {
        (FV::C(x), FV::C(y)) => Ok(Val::C(x.copysign(y).to_bits())),
        (FV::P(p), FV::C(y)) => { let q = fl::abs(p); Ok(Val::F(if y.is_sign_negative() { fl::neg(q) } else { q })) }
        (FV::T(_), _) | (_, FV::T(_)) => { let (x, y) = (a[0].1.term(64), a[1].1.term(64)); Ok(Val::of(term::concat(term::extract(y, 63, 1), term::extract(x, 0, 63)))) }
        (_, FV::P(p)) => { let l = fl::less(p, fl::cst(0.0), true); let neg = st.decide_t(l)?; let m = funary(FOp::Abs, &a[0].1, &st.fx)?; if neg { funary(FOp::Neg, &m, &st.fx) } else { Ok(m) } }
    }
}
fn libm(name: &str, st: &State, a: A, f: &dyn Fn(&[f64]) -> f64) -> X<Val> {
    let vs: Vec<FV> = a.iter().map(|x| fval(&x.1, &st.fx)).collect();
    let cs: Vec<f64> = vs.iter().filter_map(|v| if let FV::C(c) = v { Some(*c) } else { None }).collect();
    if cs.len() == vs.len() { return Ok(Val::C(f(&cs).to_bits())); }
    if vs.iter().any(|v| matches!(v, FV::T(_))) {
        if vs.iter().any(|v| matches!(v, FV::P(_))) { return Err(Stop::Unsup("mixed floats".into())); }
        return Ok(Val::T(term::uf(name, a.iter().map(|x| x.1.term(64)).collect(), 64)));
    }
    let ps: Vec<u32> = vs.iter().map(|v| match v { FV::C(c) => fl::cst(*c), FV::P(p) => *p, _ => 0 }).collect();
    if name == "sin" { return Ok(Val::F(st.fx.norm(fl::cossin(ps[0]).1))); }
    if name == "cos" { return Ok(Val::F(st.fx.norm(fl::cossin(ps[0]).0))); }
    Ok(Val::F(fl::uf(name, ps)))
}
macro_rules! lm { ($($id:ident $n:expr, $f:expr;)*) => { $(fn $id(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { libm($n, st, a, &$f) })* } }
lm! {
    l_sin "sin", |a: &[f64]| a[0].sin(); l_cos "cos", |a: &[f64]| a[0].cos(); l_tan "tan", |a: &[f64]| a[0].tan(); l_sinh "sinh", |a: &[f64]| a[0].sinh(); l_cosh "cosh", |a: &[f64]| a[0].cosh(); l_tanh "tanh", |a: &[f64]| a[0].tanh();
    l_asin "asin", |a: &[f64]| a[0].asin(); l_acos "acos", |a: &[f64]| a[0].acos(); l_atan "atan", |a: &[f64]| a[0].atan(); l_atan2 "atan2", |a: &[f64]| a[0].atan2(a[1]); l_exp "exp", |a: &[f64]| a[0].exp(); l_exp2 "exp2", |a: &[f64]| a[0].exp2();
    l_log "log", |a: &[f64]| a[0].ln(); l_log2 "log2", |a: &[f64]| a[0].log2(); l_log10 "log10", |a: &[f64]| a[0].log10(); l_pow "pow", |a: &[f64]| a[0].powf(a[1]); l_hypot "hypot", |a: &[f64]| a[0].hypot(a[1]); l_cbrt "cbrt", |a: &[f64]| a[0].cbrt();
}
fn powi(st: &mut State, a: A) -> X<Val> {
    let n = u(st, a, 1)? as u32 as i32;
    if let Val::C(x) = a[0].1 { return Ok(Val::C(f64::from_bits(x).powi(n).to_bits())); }
    if !(0..=8).contains(&n) {
        if let FV::T(t) = fval(&a[0].1, &st.fx) { return Ok(Val::T(term::uf("powi", vec![t, term::k(n as u32 as u128, 32)], 64))); }
        return Err(Stop::Unsup("powi".into()));
    }
    if let FV::T(t) = fval(&a[0].1, &st.fx) { return Ok(Val::T(term::uf("powi", vec![t, term::k(n as u128, 32)], 64))); }
    let mut r = Val::C(1f64.to_bits());
    for _ in 0..n { r = fbin(FOp::Mul, &r, &a[0].1, &st.fx)?; }
    Ok(r)
}
fn p_powi_t(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    // symbolic exponent: uninterpreted
    match (&a[0].1, &a[1].1) {
        (Val::C(x), Val::C(n)) => Ok(Val::C(f64::from_bits(*x).powi(*n as u32 as i32).to_bits())),
        (_, Val::C(_)) => powi(st, a),
        _ => Ok(Val::T(term::uf("powi", vec![a[0].1.term(64), a[1].1.term(32)], 64))),
    }
}
fn p_isclass(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let mask = u(st, a, 1)?;
    match fval(&a[0].1, &st.fx) {
        FV::C(c) => {
            let neg = c.is_sign_negative();
            let b = if c.is_nan() { 3 } else if c.is_infinite() { if neg { 4 } else { 512 } } else if c == 0.0 { if neg { 32 } else { 64 } } else if c.is_subnormal() { if neg { 16 } else { 128 } } else if neg { 8 } else { 256 };
            Ok(Val::C((mask & b != 0) as u64))
        }
        FV::T(t) => {
            let (e, m, s) = (term::extract(t, 52, 11), term::extract(t, 0, 52), term::extract(t, 63, 1));
            let emax = term::eq(e, term::k(0x7ff, 11));
            let e0 = term::eq(e, term::k(0, 11));
            let m0 = term::eq(m, term::k(0, 52));
            let mut r = term::ff();
            let mut add = |bit: u64, c: T| { if mask & bit != 0 { r = term::or(r, c); } };
            let inf = term::and(emax, m0);
            add(3, term::and(emax, term::not(m0)));
            add(4, term::and(inf, s));
            add(512, term::and(inf, term::not(s)));
            let z = term::and(e0, m0);
            add(32, term::and(z, s));
            add(64, term::and(z, term::not(s)));
            let sub = term::and(e0, term::not(m0));
            add(16, term::and(sub, s));
            add(128, term::and(sub, term::not(s)));
            let nrm = term::and(term::not(e0), term::not(emax));
            add(8, term::and(nrm, s));
            add(256, term::and(nrm, term::not(s)));
            Ok(Val::of(r))
        }
        FV::P(p) => {
            // a finite real: nan/inf never; sign and zero by literals
            let l = fl::less(p, fl::cst(0.0), true);
            let z = fl::equal(p, fl::cst(0.0));
            let mut r = term::ff();
            if mask & (8 | 16) != 0 { r = term::or(r, term::and(l, term::not(z))); }
            if mask & (128 | 256) != 0 { r = term::or(r, term::and(term::not(l), term::not(z))); }
            if mask & (32 | 64) != 0 { r = term::or(r, z); }
            Ok(Val::of(r))
        }
    }
}
fn p_fptosi_sat(_: &mut Engine, st: &mut State, a: A, r: &Ty) -> X<Val> { let w = tyw(r); match fval(&a[0].1, &st.fx) { FV::C(c) => Ok(Val::C(term::eval_fp(FOp::ToS, &[c.to_bits() as u128], 64, w).unwrap() as u64)), FV::T(t) => Ok(Val::of(term::fp(FOp::ToS, vec![t], w))), _ => toint(&a[0].1, w, true, st) } }
fn p_fptoui_sat(_: &mut Engine, st: &mut State, a: A, r: &Ty) -> X<Val> { let w = tyw(r); match fval(&a[0].1, &st.fx) { FV::C(c) => Ok(Val::C(term::eval_fp(FOp::ToU, &[c.to_bits() as u128], 64, w).unwrap() as u64)), FV::T(t) => Ok(Val::of(term::fp(FOp::ToU, vec![t], w))), _ => toint(&a[0].1, w, false, st) } }

// ---- harness primitives
fn bv_input(st: &mut State, w: u32) -> T {
    let n = st.nsym.entry(format!("b{}", w)).or_insert(0);
    let ix = *n;
    *n += 1;
    thread_local! { static VARS: std::cell::RefCell<HashMap<(u32, u32), T>> = std::cell::RefCell::new(HashMap::new()); }
    let t = VARS.with(|v| *v.borrow_mut().entry((w, ix)).or_insert_with(|| term::new_var(&format!("in{}_{}", w, ix), w)));
    st.inputs.push(Input::Bits(t));
    t
}
fn real_var(st: &mut State, key: &str, kind: VK) -> u32 {
    let n = st.nsym.entry(key.to_string()).or_insert(0);
    let ix = *n;
    *n += 1;
    thread_local! { static VARS: std::cell::RefCell<HashMap<(String, u32), u32>> = std::cell::RefCell::new(HashMap::new()); }
    VARS.with(|v| *v.borrow_mut().entry((key.to_string(), ix)).or_insert_with(|| fl::new_var(kind, &format!("{}{}", key, ix))))
}
fn s_bits(_: &mut Engine, st: &mut State, a: A, r: &Ty) -> X<Val> { let w = u(st, a, 0)? as u32; let t = bv_input(st, w); Ok(Val::of(term::zext(t, tyw(r)))) }
fn s_choice(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let n = u(st, a, 0)?;
    if let Some(k) = st.forced.pop() { st.choices += 1; st.inputs.push(Input::Choice(k)); return Ok(Val::C(k)); }
    Err(Stop::Choice(n))
}
fn s_assume(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { if st.decide(&a[0].1)? { Ok(Val::U) } else { Err(Stop::Assume) } }
fn s_angle(_: &mut Engine, st: &mut State, _: A, _: &Ty) -> X<Val> { let v = real_var(st, "theta", VK::Angle); st.fx.base.push(v); let f = fl::var(v); st.inputs.push(Input::Real(f)); st.fx.samples.clear(); Ok(Val::F(f)) }
fn s_real(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (l, h) = (f64::from_bits(u(st, a, 0)?), f64::from_bits(u(st, a, 1)?));
    let v = real_var(st, &format!("x[{},{}]_", l, h), VK::Free(l, h));
    st.fx.base.push(v);
    let f = fl::var(v);
    st.inputs.push(Input::Real(f));
    st.fx.samples.clear();
    Ok(Val::F(f))
}
fn s_amps(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (n, p) = (u(st, a, 0)?, u(st, a, 1)?);
    let mut vs = vec![];
    for i in 0..n {
        let v = real_var(st, "a", VK::Amp);
        vs.push(v);
        st.inputs.push(Input::Real(fl::var(v)));
        me(st.mem.store(p + 8 * i, 8, &Val::F(fl::var(v))))?;
    }
    st.fx.add_sphere(vs);
    Ok(Val::U)
}
fn s_sample(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let seed = a[0].1.term(64);
    let ix = u(st, a, 1)? as u32;
    let seed = st.rewrite(seed);
    if let Some(f) = st.draws.get(&(seed, ix)) { return Ok(Val::F(*f)); }
    let v = real_var(st, "u", VK::Free(0.0, 1.0));
    st.fx.base.push(v);
    let f = fl::var(v);
    // u < 1
    if let N::RLit(l) = term::node(fl::less(f, fl::cst(1.0), true)) { st.fx.assume(*l, true); }
    st.inputs.push(Input::Real(f));
    st.draws.insert((seed, ix), f);
    st.fx.samples.clear();
    Ok(Val::F(f))
}
fn s_sample_bits(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    // (seed, index): an arbitrary 64-bit draw, a function of both
    let seed = st.rewrite(a[0].1.term(64));
    let ix = u(st, a, 1)? as u32;
    if let Some(f) = st.draws.get(&(seed, ix | 0x8000_0000)) { return Ok(Val::T(*f)); }
    let t = bv_input(st, 64);
    st.draws.insert((seed, ix | 0x8000_0000), t);
    Ok(Val::T(t))
}
fn id_of(st: &State, a: A, i: usize) -> X<String> { text(st, u(st, a, i)?, u(st, a, i + 1)?) }
fn s_check(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let id = id_of(st, a, 1)?;
    let v = match &a[0].1 { Val::T(t) if term::width(*t) > 1 => Val::of(term::extract(*t, 0, 1)), v => v.clone() };
    e.assert_t(st, &v, &id)?;
    Ok(Val::U)
}
fn poly_of(st: &State, v: &Val) -> X<u32> { match fval(v, &st.fx) { FV::C(c) => { if !c.is_finite() { return Err(Stop::Unsup("comparison of a non-finite value".into())); } Ok(fl::cst(c)) } FV::P(p) => Ok(p), FV::T(_) => Err(Stop::Unsup("bit-precise float in a real comparison".into())) } }
fn s_near(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let tol = f64::from_bits(u(st, a, 2)?);
    let id = id_of(st, a, 3)?;
    for k in 0..2 { if let Val::C(c) = a[k].1 { if !f64::from_bits(c).is_finite() { e.count(&id); return Err(Stop::Viol(id, None, None)); } } }
    let (p, q) = (poly_of(st, &a[0].1)?, poly_of(st, &a[1].1)?);
    e.prove_small(st, fl::sub(p, q), tol, &id)?;
    Ok(Val::U)
}
fn cmul(a: (u32, u32), b: (u32, u32)) -> (u32, u32) { (fl::sub(fl::mul(a.0, b.0), fl::mul(a.1, b.1)), fl::add(fl::mul(a.0, b.1), fl::mul(a.1, b.0))) }
fn s_states(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    // (n, act, ref, id): equality up to a global phase
    let (n, p, q) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?);
    let id = id_of(st, a, 3)?;
    let rd = |st: &State, b: u64| -> X<Vec<(u32, u32)>> { let mut o = vec![]; for i in 0..n { let x = st.load_ty(&Ty::F64, b + 16 * i)?; let y = st.load_ty(&Ty::F64, b + 16 * i + 8)?; o.push((poly_of(st, &x)?, poly_of(st, &y)?)); } Ok(o) };
    let x = match rd(st, p) { Ok(x) => x, Err(Stop::Unsup(m)) if m.contains("non-finite") => { e.count(&id); return Err(Stop::Viol(id, None, None)); } Err(s) => return Err(s) };
    let y = rd(st, q)?;
    let z = |f: u32| -> bool { fl::as_const(st.fx.norm(f)).map_or(false, |c| c.abs() < 1e-7) };
    for s in 0..4 {
        let ok = (0..n as usize).all(|i| {
            let r = match s { 0 => y[i], 1 => (fl::neg(y[i].0), fl::neg(y[i].1)), 2 => (fl::neg(y[i].1), y[i].0), _ => (y[i].1, fl::neg(y[i].0)) };
            z(fl::sub(x[i].0, r.0)) && z(fl::sub(x[i].1, r.1))
        });
        if ok {
            let pairs: Vec<(u32, u32)> = (0..n as usize).flat_map(|i| { let r = match s { 0 => y[i], 1 => (fl::neg(y[i].0), fl::neg(y[i].1)), 2 => (fl::neg(y[i].1), y[i].0), _ => (y[i].1, fl::neg(y[i].0)) }; [(x[i].0, r.0), (x[i].1, r.1)] }).collect();
            e.confirm(st, &pairs);
        }
        if ok { e.count(&id); e.st.checks_real += 1; e.st.checks_real_const += 1; return Ok(Val::U); }
    }
    let nrm = |v: &Vec<(u32, u32)>| v.iter().fold(fl::cst(0.0), |s, c| fl::add(s, fl::add(fl::mul(c.0, c.0), fl::mul(c.1, c.1))));
    e.prove_small(st, fl::sub(nrm(&x), nrm(&y)), 1e-7, &id)?;
    for i in 0..n as usize { for j in 0..i {
        let (l, r) = (cmul(x[i], y[j]), cmul(x[j], y[i]));
        e.prove_small(st, fl::sub(l.0, r.0), 1e-7, &id)?;
        e.prove_small(st, fl::sub(l.1, r.1), 1e-7, &id)?;
    } }
    Ok(Val::U)
}
// a goal has to be reached by some path that shares its choices
fn goal_key(st: &State, id: String) -> (String, Vec<u64>) { (id, st.inputs.iter().filter_map(|i| if let Input::Choice(c) = i { Some(*c) } else { None }).collect()) }
fn s_goal(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let k = goal_key(st, id_of(st, a, 0)?); e.goals.entry(k).or_insert(false); Ok(Val::U) }
fn s_reached(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let id = id_of(st, a, 0)?; e.count(&id); let k = goal_key(st, id); e.goals.insert(k, true); Ok(Val::U) }
fn s_panic_mode(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { st.panic_mode = u(st, a, 0)? as u32; Ok(Val::U) }
fn s_must_not_return(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let id = id_of(st, a, 0)?; e.count(&id); Err(Stop::Viol(id, None, None)) }
fn s_heap_mark(_: &mut Engine, st: &mut State, _: A, _: &Ty) -> X<Val> { st.mark += 1; Ok(Val::U) }
fn s_heap_check(e: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let id = id_of(st, a, 0)?;
    e.count(&id);
    let l = st.mem.live_marked(st.mark);
    if l.is_empty() { Ok(Val::U) } else { if e.trace { eprintln!("leaked: {:?}", l.iter().map(|a| st.mem.obj(*a).map(|o| o.0.data.len()).unwrap_or(0)).collect::<Vec<_>>()); } Err(Stop::Viol(id, None, None)) }
}
fn s_live(_: &mut Engine, st: &mut State, _: A, _: &Ty) -> X<Val> { Ok(Val::C(st.mem.live_marked(st.mark).len() as u64)) }
fn s_thin(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { st.fx.thin_left = u(st, a, 0)? as i32; Ok(Val::U) }
fn s_dbg(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { for x in a { match &x.1 { Val::F(f) => eprintln!("DBG {}", fl::show(st.fx.norm(*f))), Val::C(c) => eprintln!("DBG {} / {}", c, f64::from_bits(*c)), Val::T(t) => eprintln!("DBG {:?}", term::node(*t)), v => eprintln!("DBG {:?}", v) } } Ok(Val::U) }
fn s_dbg_str(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let p = u(st, a, 0)?; let n = u(st, a, 1)?; let mut s = String::new(); for i in 0..n { match me(st.mem.load(p + i, 1))? { Val::C(c) => s.push(c as u8 as char), _ => s.push('?') } } eprintln!("DBG {:?}", s); Ok(Val::U) }
fn s_tier(e: &mut Engine, _: &mut State, _: A, _: &Ty) -> X<Val> { Ok(Val::C(!e.quick as u64)) }
/// keys of hash tables: fixed
fn p_getrandom(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> { let (d, n) = (u(st, a, 0)?, u(st, a, 1)?); me(st.mem.fill(d, &Val::C(0x5a), n))?; Ok(Val::C(n)) }
fn put(st: &mut State, fd: u64, p: u64, n: u64) -> X<()> {
    if fd != 1 || st.stdout.is_none() { return Ok(()); }
    let mut v = Vec::with_capacity(n as usize);
    for i in 0..n { v.push(me(st.mem.load(p + i, 1))?); }
    st.stdout.as_mut().unwrap().extend(v);
    Ok(())
}
fn p_write(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (fd, p, n) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?);
    put(st, fd, p, n)?;
    Ok(Val::C(n))
}
fn p_writev(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (fd, p, k) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?);
    let mut n = 0;
    for i in 0..k {
        let (q, m) = (me(st.mem.load(p + 16 * i, 8))?, me(st.mem.load(p + 16 * i + 8, 8))?);
        let (q, m) = (st.conc(&q, 64)?, st.conc(&m, 64)?);
        put(st, fd, q, m)?;
        n += m;
    }
    Ok(Val::C(n))
}
fn p_read(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (fd, p, n) = (u(st, a, 0)?, u(st, a, 1)?, u(st, a, 2)?);
    if fd != 0 { return Err(Stop::Unsup("read of a file".into())); }
    let m = n.min((st.stdin.len() - st.stdin_at) as u64);
    let d = st.stdin.clone();
    for i in 0..m { me(st.mem.store(p + i, 1, &d[st.stdin_at + i as usize]))?; }
    st.stdin_at += m as usize;
    Ok(Val::C(m))
}
fn s_stdin(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    let (p, n) = (u(st, a, 0)?, u(st, a, 1)?);
    let mut v = vec![];
    for i in 0..n { v.push(me(st.mem.load(p + i, 1))?); }
    st.stdin = Rc::new(v);
    st.stdin_at = 0;
    Ok(Val::U)
}
fn s_capture(_: &mut Engine, st: &mut State, _: A, _: &Ty) -> X<Val> { st.stdout = Some(vec![]); Ok(Val::U) }
fn s_captured(_: &mut Engine, st: &mut State, a: A, _: &Ty) -> X<Val> {
    // the number of bytes captured; written to the given place, if there is one
    let p = u(st, a, 0)?;
    let v = st.stdout.clone().unwrap_or_default();
    if p != 0 { for (i, x) in v.iter().enumerate() { me(st.mem.store(p + i as u64, 1, x))?; } }
    Ok(Val::C(v.len() as u64))
}

pub fn table() -> HashMap<&'static str, Prim> {
    let mut m: HashMap<&'static str, Prim> = HashMap::new();
    let l: &[(&'static str, Prim)] = &[
        ("malloc", p_malloc), ("calloc", p_calloc), ("free", p_free), ("realloc", p_realloc), ("posix_memalign", p_memalign), ("aligned_alloc", p_aligned), ("memalign", p_aligned),
        ("memcpy", p_memcpy), ("memmove", p_memcpy), ("memset", p_memset), ("bcmp", p_bcmp), ("memcmp", p_memcmp), ("strlen", p_strlen), ("write", p_write), ("writev", p_writev), ("read", p_read), ("isatty", p_zero), ("sym_stdin", s_stdin), ("sym_capture", s_capture), ("sym_captured", s_captured), ("getrandom", p_getrandom),
        ("__cxa_thread_atexit_impl", p_zero), ("abort", p_trap),
        ("sin", l_sin), ("cos", l_cos), ("tan", l_tan), ("sinh", l_sinh), ("cosh", l_cosh), ("tanh", l_tanh), ("asin", l_asin), ("acos", l_acos), ("atan", l_atan), ("atan2", l_atan2), ("exp", l_exp), ("log", l_log), ("log2", l_log2), ("log10", l_log10), ("pow", l_pow), ("hypot", l_hypot), ("fmod", l_fmod), ("sqrt", p_sqrt), ("cbrt", l_cbrt), ("floor", p_floor), ("ceil", p_ceil), ("round", p_round), ("trunc", p_ftrunc), ("roundeven", p_roundeven), ("fmax", p_fmax), ("fmin", p_fmin), ("exp2", l_exp2),
        ("sym_bits", s_bits), ("sym_choice", s_choice), ("sym_assume", s_assume), ("sym_angle", s_angle), ("sym_real", s_real), ("sym_amps", s_amps), ("sym_sample", s_sample), ("sym_sample_bits", s_sample_bits),
        ("sym_goal", s_goal), ("sym_reached", s_reached), ("sym_check", s_check), ("sym_near", s_near), ("sym_states", s_states), ("sym_panic_mode", s_panic_mode), ("sym_must_not_return", s_must_not_return), ("sym_heap_mark", s_heap_mark), ("sym_heap_check", s_heap_check), ("sym_live", s_live), ("sym_thin", s_thin), ("sym_dbg", s_dbg), ("sym_dbg_str", s_dbg_str), ("sym_tier", s_tier),
    ];
    for (n, p) in l { m.insert(n, *p); }
    m
}
pub fn by_pattern(n: &str) -> Option<Prim> {
    if let Some(r) = n.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return Some(if st("memcpy") || st("memmove") { p_memcpy } else if st("memset") { p_memset }
        else if st("ctpop") { p_ctpop } else if st("ctlz") { p_ctlz } else if st("cttz") { p_cttz } else if st("bswap") { p_bswap } else if st("bitreverse") { p_bitrev }
        else if st("umax") { p_umax } else if st("umin") { p_umin } else if st("smax") { p_smax } else if st("smin") { p_smin } else if st("abs") { p_iabs }
        else if st("fshl") { p_fshl } else if st("fshr") { p_fshr } else if st("uadd.sat") { p_uaddsat } else if st("usub.sat") { p_usubsat } else if st("sadd.sat") { p_saddsat } else if st("ssub.sat") { p_ssubsat }
        else if st("uadd.with") { p_uaddo } else if st("usub.with") { p_usubo } else if st("umul.with") { p_umulo } else if st("sadd.with") { p_saddo } else if st("ssub.with") { p_ssubo } else if st("smul.with") { p_smulo }
        else if st("x86.addcarry") { p_addcarry } else if st("x86.subborrow") { p_subborrow } else if st("ucmp") { p_ucmp } else if st("scmp") { p_scmp } else if st("load.relative") { p_loadrel }
        else if st("threadlocal.address") || st("expect") || st("launder") || st("strip.invariant") || st("ssa.copy") { p_arg0 }
        else if st("is.constant") { p_zero } else if st("trap") || st("debugtrap") || st("ubsantrap") { p_trap }
        else if st("vector.reduce.or") { p_reduce_or } else if st("vector.reduce.and") { p_reduce_and } else if st("vector.reduce.add") { p_reduce_add }
        else if st("fabs") { p_fabs } else if st("sqrt") { p_sqrt } else if st("maximumnum") || st("maxnum") || st("maximum") { p_fmax } else if st("minimumnum") || st("minnum") || st("minimum") { p_fmin }
        else if st("roundeven") || st("rint") || st("nearbyint") { p_roundeven } else if st("round.") { p_round } else if st("trunc") { p_ftrunc } else if st("floor") { p_floor } else if st("ceil") { p_ceil } else if st("fmuladd") || st("fma") { p_fma } else if st("copysign") { p_copysign }
        else if st("sin.") { l_sin } else if st("cos.") { l_cos } else if st("tan.") { l_tan } else if st("sinh.") { l_sinh } else if st("cosh.") { l_cosh } else if st("tanh.") { l_tanh } else if st("asin.") { l_asin } else if st("acos.") { l_acos } else if st("atan.") { l_atan } else if st("atan2.") { l_atan2 } else if st("exp.") { l_exp } else if st("exp2.") { l_exp2 } else if st("log.") { l_log } else if st("log2.") { l_log2 } else if st("log10.") { l_log10 } else if st("pow.") { l_pow } else if st("powi.") { p_powi_t }
        else if st("is.fpclass") { p_isclass } else if st("fptosi.sat") { p_fptosi_sat } else if st("fptoui.sat") { p_fptoui_sat }
        else if st("assume") || st("lifetime") || st("experimental.noalias") || st("dbg") || st("prefetch") || st("donothing") { p_nop } else { return None });
    }
    crate::stubs::by_pattern(n)
}
