//! Hash-consed bit-vector terms with on-the-fly simplification.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum COp { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp { Add, Sub, Mul, Div, Sqrt, RoundEven, RoundAway, Trunc, Floor, Ceil, Lt, Le, Eq, FromS, FromU, ToS, ToU, Abs, Neg, IsNan, Min, Max, Fma }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum N {
    Var(u32),
    K(u128),
    Bin(BOp, T, T),
    Cmp(COp, T, T),
    Zext(T),
    Sext(T),
    Extract(T, u32),
    Concat(T, T),
    Ite(T, T, T),
    FBits(u32),
    RLit(u32),
    Fp(FOp, Vec<T>),
    Uf(u32, Vec<T>),
}

pub struct Arena {
    /// nodes never move: references to them are held while new ones are made
    nodes: Vec<&'static N>,
    block: Vec<N>,
    pub w: Vec<u32>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    pub has_real: Vec<bool>,
    pub has_uf: Vec<bool>,
    map: HashMap<(N, u32), T>,
    pub vars: Vec<(String, u32)>,
    pub ufs: Vec<String>,
}

static mut AR: Option<Arena> = None;
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if AR.is_none() {
            AR = Some(Arena { nodes: vec![], block: vec![], w: vec![], lo: vec![], hi: vec![], has_real: vec![], has_uf: vec![], map: HashMap::new(), vars: vec![], ufs: vec![] });
        }
        AR.as_mut().unwrap()
    }
}

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w; ((v << s) as i128) >> s } }

pub fn width(t: T) -> u32 { ar().w[t as usize] }
pub fn node(t: T) -> &'static N { ar().nodes[t as usize] }
pub fn lo(t: T) -> u128 { ar().lo[t as usize] }
pub fn hi(t: T) -> u128 { ar().hi[t as usize] }
pub fn as_k(t: T) -> Option<u128> { match node(t) { N::K(v) => Some(*v), _ => None } }
pub fn has_real(t: T) -> bool { ar().has_real[t as usize] }

fn kids(n: &N) -> Vec<T> {
    match n {
        N::Var(_) | N::K(_) | N::FBits(_) | N::RLit(_) => vec![],
        N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => vec![*a, *b],
        N::Zext(a) | N::Sext(a) | N::Extract(a, _) => vec![*a],
        N::Ite(c, a, b) => vec![*c, *a, *b],
        N::Fp(_, v) | N::Uf(_, v) => v.clone(),
    }
}

fn mk(n: N, w: u32) -> T {
    let a = ar();
    if let Some(t) = a.map.get(&(n.clone(), w)) { return *t; }
    let id = a.nodes.len() as T;
    let ks = kids(&n);
    let hr = matches!(n, N::FBits(_) | N::RLit(_)) || ks.iter().any(|k| a.has_real[*k as usize]);
    let hu = matches!(n, N::Uf(..)) || ks.iter().any(|k| a.has_uf[*k as usize]);
    let m = mask(w);
    let (mut l, mut h) = (0u128, m);
    match &n {
        N::K(v) => { l = *v; h = *v; }
        N::Zext(x) => { l = lo(*x); h = hi(*x); }
        N::Extract(x, 0) => { if hi(*x) <= m { l = lo(*x); h = hi(*x); } }
        N::Extract(x, k) => { let b = hi(*x) >> k; if b < h { h = b; } }
        N::Concat(x, y) => { let wy = width(*y); l = (lo(*x) << wy) | lo(*y); h = (hi(*x) << wy) | hi(*y); }
        N::Ite(_, x, y) => { l = lo(*x).min(lo(*y)); h = hi(*x).max(hi(*y)); }
        N::Bin(op, x, y) => match op {
            BOp::And => h = hi(*x).min(hi(*y)),
            BOp::Or => { l = lo(*x).max(lo(*y)); h = ones(hi(*x) | hi(*y)); }
            BOp::Xor => h = ones(hi(*x) | hi(*y)),
            BOp::Add => if let (Some(s), Some(s2)) = (hi(*x).checked_add(hi(*y)), lo(*x).checked_add(lo(*y))) { if s <= m { l = s2; h = s; } },
            BOp::Sub => if lo(*x) >= hi(*y) { l = lo(*x) - hi(*y); h = hi(*x) - lo(*y); },
            BOp::Mul => if let Some(s) = hi(*x).checked_mul(hi(*y)) { if s <= m { l = lo(*x) * lo(*y); h = s; } },
            BOp::UDiv => if lo(*y) > 0 { l = lo(*x) / hi(*y); h = hi(*x) / lo(*y); },
            BOp::URem => { if hi(*y) > 0 && lo(*y) > 0 { h = (hi(*y) - 1).min(hi(*x)); } else { h = hi(*x).max(0); } }
            BOp::LShr => { if let Some(k) = as_k(*y) { if k < w as u128 { l = lo(*x) >> k; h = hi(*x) >> k; } } else { h = hi(*x); } }
            _ => {}
        },
        N::Fp(FOp::Lt | FOp::Le | FOp::Eq | FOp::IsNan, _) => {}
        _ => {}
    }
    if a.block.len() == a.block.capacity() { std::mem::forget(std::mem::replace(&mut a.block, Vec::with_capacity(1 << 14))); }
    a.block.push(n.clone());
    a.nodes.push(unsafe { &*(a.block.last().unwrap() as *const N) });
    a.w.push(w);
    a.lo.push(l);
    a.hi.push(h);
    a.has_real.push(hr);
    a.has_uf.push(hu);
    a.map.insert((n, w), id);
    id
}
fn ones(v: u128) -> u128 { if v == 0 { 0 } else { let n = 128 - v.leading_zeros(); mask(n) } }

pub fn k(v: u128, w: u32) -> T { mk(N::K(v & mask(w)), w) }
pub fn new_var(name: &str, w: u32) -> T {
    let a = ar();
    a.vars.push((name.to_string(), w));
    let i = a.vars.len() as u32 - 1;
    mk(N::Var(i), w)
}
pub fn var_by_index(i: u32) -> T { let w = ar().vars[i as usize].1; mk(N::Var(i), w) }
pub fn uf(name: &str, args: Vec<T>, w: u32) -> T {
    let a = ar();
    let i = match a.ufs.iter().position(|n| n == name) { Some(i) => i, None => { a.ufs.push(name.to_string()); a.ufs.len() - 1 } };
    mk(N::Uf(i as u32, args), w)
}
pub fn fbits(f: u32) -> T { mk(N::FBits(f), 64) }
pub fn rlit(l: u32) -> T { mk(N::RLit(l), 1) }
pub fn tt() -> T { k(1, 1) }
pub fn ff() -> T { k(0, 1) }
pub fn not(a: T) -> T { bin(BOp::Xor, a, k(1, 1)) }
pub fn and(a: T, b: T) -> T { bin(BOp::And, a, b) }
pub fn or(a: T, b: T) -> T { bin(BOp::Or, a, b) }
pub fn eq(a: T, b: T) -> T { cmp(COp::Eq, a, b) }

pub fn fold_bin(op: BOp, a: u128, b: u128, w: u32) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        BOp::Add => a.wrapping_add(b),
        BOp::Sub => a.wrapping_sub(b),
        BOp::Mul => a.wrapping_mul(b),
        BOp::UDiv => { if b == 0 { return None; } a / b }
        BOp::URem => { if b == 0 { return None; } a % b }
        BOp::SDiv => { if b == 0 { return None; } sx(a, w).wrapping_div(sx(b, w)) as u128 }
        BOp::SRem => { if b == 0 { return None; } sx(a, w).wrapping_rem(sx(b, w)) as u128 }
        BOp::Shl => if b >= w as u128 { 0 } else { a << b },
        BOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        BOp::AShr => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
        BOp::And => a & b,
        BOp::Or => a | b,
        BOp::Xor => a ^ b,
    } & m)
}

/// segments from low to high: (term or zero, width)
fn segs(t: T, out: &mut Vec<(Option<T>, u32)>) {
    match node(t) {
        N::K(0) => out.push((None, width(t))),
        N::Zext(x) => { segs(*x, out); out.push((None, width(t) - width(*x))); }
        N::Concat(h, l) => { segs(*l, out); segs(*h, out); }
        _ => out.push((Some(t), width(t))),
    }
}
fn try_merge(a: T, b: T) -> Option<T> {
    let (mut sa, mut sb) = (vec![], vec![]);
    segs(a, &mut sa);
    segs(b, &mut sb);
    if sa.len() == 1 && sb.len() == 1 { return None; }
    if !sa.iter().chain(sb.iter()).any(|s| s.0.is_none()) { return None; }
    let (mut i, mut j) = (0, 0);
    let (mut oa, mut ob) = (0u32, 0u32); // consumed within the segment
    let mut res: Option<T> = None;
    while i < sa.len() {
        let ra = sa[i].1 - oa;
        let rb = sb[j].1 - ob;
        let n = ra.min(rb);
        let piece = match (sa[i].0, sb[j].0) {
            (None, None) => k(0, n),
            (Some(x), None) => extract(x, oa, n),
            (None, Some(y)) => extract(y, ob, n),
            _ => return None,
        };
        res = Some(match res { None => piece, Some(r) => concat(piece, r) });
        oa += n;
        ob += n;
        if oa == sa[i].1 { i += 1; oa = 0; }
        if ob == sb[j].1 { j += 1; ob = 0; }
    }
    res
}

pub fn bin(op: BOp, a: T, b: T) -> T {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?} {:?} {:?}", op, node(a), node(b));
    let (ka, kb) = (as_k(a), as_k(b));
    if let (Some(x), Some(y)) = (ka, kb) { if let Some(r) = fold_bin(op, x, y, w) { return k(r, w); } }
    if w == 128 && matches!(op, BOp::UDiv | BOp::URem) && hi(a) >> 64 == 0 && hi(b) >> 64 == 0 && lo(b) > 0 { return zext(bin(op, extract(a, 0, 64), extract(b, 0, 64)), 128); }
    let comm = matches!(op, BOp::Add | BOp::Mul | BOp::And | BOp::Or | BOp::Xor);
    if comm && (ka.is_some() || (kb.is_none() && a > b)) { return bin2(op, b, a, w); }
    bin2(op, a, b, w)
}
fn bin2(op: BOp, a: T, b: T, w: u32) -> T {
    let m = mask(w);
    if let Some(y) = as_k(b) {
        match op {
            BOp::Add => {
                if y == 0 { return a; }
                if w == 1 { return bin(BOp::Xor, a, b); }
                if let N::Bin(BOp::Add, p, q) = node(a) { if let Some(z) = as_k(*q) { return bin(BOp::Add, *p, k(z.wrapping_add(y), w)); } }
                if let N::Bin(BOp::Sub, p, q) = node(a) { if let Some(z) = as_k(*p) { return bin(BOp::Sub, k(z.wrapping_add(y), w), *q); } }
                if let N::Bin(BOp::Xor, p, q) = node(a) { if as_k(*q) == Some(m) { return bin(BOp::Sub, k(y.wrapping_sub(1), w), *p); } }
                if let N::Ite(c, p, q) = node(a) { if as_k(*p).is_some() && as_k(*q).is_some() { return ite(*c, bin(op, *p, b), bin(op, *q, b)); } }
            }
            BOp::Sub => { return bin(BOp::Add, a, k(y.wrapping_neg(), w)); }
            BOp::Mul => {
                if y == 0 { return b; }
                if y == 1 { return a; }
                if y.is_power_of_two() { return bin(BOp::Shl, a, k(y.trailing_zeros() as u128, w)); }
                if let N::Ite(c, p, q) = node(a) { if as_k(*p).is_some() && as_k(*q).is_some() { return ite(*c, bin(op, *p, b), bin(op, *q, b)); } }
            }
            BOp::UDiv => { if let N::Bin(BOp::UDiv, x, c) = node(a) { if let Some(c) = as_k(*c) { if c > 0 && y > 0 { return match c.checked_mul(y) { Some(z) if z <= mask(w) => bin(BOp::UDiv, *x, k(z, w)), _ => k(0, w) }; } } } if y == 1 { return a; } if y.is_power_of_two() { return bin(BOp::LShr, a, k(y.trailing_zeros() as u128, w)); } }
            BOp::URem => {
                if y == 1 { return k(0, w); }
                if y != 0 && hi(a) < y { return a; }
                if y.is_power_of_two() { return bin(BOp::And, a, k(y - 1, w)); }
            }
            BOp::And => {
                if y == 0 { return b; }
                if y == m { return a; }
                if ones(hi(a)) & !y == 0 { return a; }
                if let N::Bin(BOp::And, p, q) = node(a) { if let Some(z) = as_k(*q) { return bin(BOp::And, *p, k(z & y, w)); } }
                if let N::Ite(c, p, q) = node(a) { if as_k(*p).is_some() && as_k(*q).is_some() { return ite(*c, bin(op, *p, b), bin(op, *q, b)); } }
                if let N::FBits(f) = node(a) { if w == 64 && y == 0x7fff_ffff_ffff_ffff { return fbits(crate::fl::abs(*f)); } }
                // contiguous run
                let tz = y.trailing_zeros();
                let run = (y >> tz).trailing_ones();
                if y >> tz == mask(run) && w > 1 {
                    let mut r = extract(a, tz, run);
                    if tz > 0 { r = concat(r, k(0, tz)); }
                    return zext(r, w);
                }
            }
            BOp::Or => {
                if y == 0 { return a; }
                if y == m { return b; }
                if let N::Bin(BOp::Or, p, q) = node(a) { if let Some(z) = as_k(*q) { return bin(BOp::Or, *p, k(z | y, w)); } }
            }
            BOp::Xor => {
                if y == 0 { return a; }
                if let N::FBits(f) = node(a) { if w == 64 && y == 1 << 63 { return fbits(crate::fl::neg(*f)); } }
                if let N::Bin(BOp::Xor, p, q) = node(a) { if let Some(z) = as_k(*q) { return bin(BOp::Xor, *p, k(z ^ y, w)); } }
                if w == 1 && y == 1 {
                    match node(a) {
                        N::Cmp(COp::Ult, p, q) => return cmp(COp::Ule, *q, *p),
                        N::Cmp(COp::Ule, p, q) => return cmp(COp::Ult, *q, *p),
                        N::Cmp(COp::Slt, p, q) => return cmp(COp::Sle, *q, *p),
                        N::Cmp(COp::Sle, p, q) => return cmp(COp::Slt, *q, *p),
                        _ => {}
                    }
                }
                if let N::Ite(c, p, q) = node(a) { if as_k(*p).is_some() && as_k(*q).is_some() { return ite(*c, bin(op, *p, b), bin(op, *q, b)); } }
            }
            BOp::Shl => {
                if y == 0 { return a; }
                if y >= w as u128 { return k(0, w); }
                return concat(extract(a, 0, w - y as u32), k(0, y as u32));
            }
            BOp::LShr => {
                if y == 0 { return a; }
                if y >= w as u128 { return k(0, w); }
                return zext(extract(a, y as u32, w - y as u32), w);
            }
            BOp::AShr => {
                if y == 0 { return a; }
                let y = y.min(w as u128 - 1) as u32;
                return sext(extract(a, y, w - y), w);
            }
            _ => {}
        }
    }
    if as_k(a) == Some(0) && matches!(op, BOp::Shl | BOp::LShr | BOp::AShr | BOp::UDiv | BOp::URem) { return a; }
    if a == b {
        match op {
            BOp::And | BOp::Or => return a,
            BOp::Xor | BOp::Sub => return k(0, w),
            _ => {}
        }
    }
    if op == BOp::Sub {
        // (x + k) - x, (x+k1) - (x+k2)
        let split = |t: T| match node(t) { N::Bin(BOp::Add, p, q) if as_k(*q).is_some() => (*p, as_k(*q).unwrap()), _ => (t, 0) };
        let (pa, ca) = split(a);
        let (pb, cb) = split(b);
        if pa == pb { return k(ca.wrapping_sub(cb), w); }
        if let N::Bin(BOp::Add, p, q) = node(a) { if *p == b { return *q; } if *q == b { return *p; } }
        // k1 - (k2 - x)
        if let (Some(k1), N::Bin(BOp::Sub, p, q)) = (as_k(a), node(b)) { if let Some(k2) = as_k(*p) { return bin(BOp::Add, *q, k(k1.wrapping_sub(k2), w)); } }
    }
    if w == 1 {
        let neg = |x: T, y: T| -> bool { not_raw(x) == Some(y) || not_raw(y) == Some(x) };
        match op {
            BOp::And => { if neg(a, b) { return ff(); } }
            BOp::Or => { if neg(a, b) { return tt(); } }
            _ => {}
        }
    }
    if matches!(op, BOp::Or | BOp::Xor | BOp::Add) && w > 1 {
        if let Some(r) = try_merge(a, b) { return r; }
    }
    if matches!(op, BOp::And | BOp::Or) && w == 64 {
        // sign copying idioms are not simplified
    }
    mk(N::Bin(op, a, b), w)
}
fn not_raw(a: T) -> Option<T> { if let N::Bin(BOp::Xor, p, q) = node(a) { if as_k(*q) == Some(1) { return Some(*p); } } None }

/// words x such that a == 0x8080808080808080 exactly when no byte of any of them is zero:
/// the test (x | !(x - 0x0101010101010101)) & 0x8080808080808080 of the standard library's memchr
fn nonzero_bytes_test(a: T) -> Option<Vec<T>> {
    let (mut m, mut xs, mut todo) = (mask(64), vec![], vec![a]);
    while let Some(t) = todo.pop() {
        match node(t) {
            N::K(v) => m &= *v,
            N::Bin(BOp::And, p, q) => { todo.push(*p); todo.push(*q); }
            N::Bin(BOp::Or, p, q) => {
                let sub = |s: T, x: T| matches!(node(s), N::Bin(BOp::Sub, c, y) if *y == x && as_k(*c) == Some(0x0101_0101_0101_0100));
                xs.push(if sub(*q, *p) { *p } else if sub(*p, *q) { *q } else { return None });
            }
            _ => return None,
        }
    }
    if m == 0x8080_8080_8080_8080 && !xs.is_empty() { Some(xs) } else { None }
}

pub fn cmp(op: COp, a: T, b: T) -> T {
    let w = width(a);
    assert!(w == width(b), "sort mismatch {} {}", show(a, 4), show(b, 4));
    if let (Some(x), Some(y)) = (as_k(a), as_k(b)) {
        let r = match op { COp::Eq => x == y, COp::Ult => x < y, COp::Ule => x <= y, COp::Slt => sx(x, w) < sx(y, w), COp::Sle => sx(x, w) <= sx(y, w) };
        return k(r as u128, 1);
    }
    if a == b { return k(matches!(op, COp::Eq | COp::Ule | COp::Sle) as u128, 1); }
    // canonical form with a constant: x < k or k <= x
    match op {
        COp::Slt => if let Some(x) = as_k(a) { if x != mask(w) >> 1 { return cmp(COp::Sle, k(x.wrapping_add(1), w), b); } },
        COp::Sle => if let Some(y) = as_k(b) { if y != mask(w) >> 1 { return cmp(COp::Slt, a, k(y.wrapping_add(1), w)); } },
        COp::Ult => if let Some(x) = as_k(a) { if x == 0 { return not(eq(b, a)); } if x < mask(w) { return cmp(COp::Ule, k(x + 1, w), b); } },
        COp::Ule => if let Some(y) = as_k(b) { if y < mask(w) { return cmp(COp::Ult, a, k(y + 1, w)); } },
        _ => {}
    }
    match op {
        COp::Ult => { if hi(a) < lo(b) { return tt(); } if lo(a) >= hi(b) { return ff(); } if let Some(1) = as_k(b) { return eq(a, k(0, w)); } }
        COp::Ule => { if hi(a) <= lo(b) { return tt(); } if lo(a) > hi(b) { return ff(); } if let Some(0) = as_k(b) { return eq(a, b); } }
        COp::Slt | COp::Sle => {
            let half = 1u128 << (w - 1);
            if hi(a) < half && hi(b) < half { return cmp(if op == COp::Slt { COp::Ult } else { COp::Ule }, a, b); }
            if lo(a) >= half && hi(b) < half { return tt(); }
            if hi(a) < half && lo(b) >= half { return ff(); }
        }
        COp::Eq => {
            if hi(a) < lo(b) || hi(b) < lo(a) { return ff(); }
            let (a, b) = if as_k(a).is_some() { (b, a) } else { (a, b) };
            if let Some(y) = as_k(b) {
                if w == 1 { return if y == 1 { a } else { not(a) }; }
                if w == 64 && y == 0x8080_8080_8080_8080 { if let Some(xs) = nonzero_bytes_test(a) { let mut r = tt(); for x in xs { for i in 0..8 { r = and(r, not(eq(extract(x, i * 8, 8), k(0, 8)))); } } return r; } }
                match node(a) {
                    N::Bin(BOp::UDiv, x, c) if y == 0 && as_k(*c).is_some_and(|c| c > 0) => return cmp(COp::Ult, *x, *c),
                    N::Zext(x) => { let wx = width(*x); return if y > mask(wx) { ff() } else { eq(*x, k(y, wx)) }; }
                    N::Sext(x) => { let wx = width(*x); let lowv = y & mask(wx); return if (sx(lowv, wx) as u128) & mask(w) == y { eq(*x, k(lowv, wx)) } else { ff() }; }
                    N::Bin(BOp::Add, p, q) => if let Some(z) = as_k(*q) { return eq(*p, k(y.wrapping_sub(z), w)); },
                    N::Bin(BOp::Xor, p, q) => if let Some(z) = as_k(*q) { return eq(*p, k(y ^ z, w)); },
                    N::Concat(h, l) => { let wl = width(*l); return and(eq(*h, k(y >> wl, width(*h))), eq(*l, k(y & mask(wl), wl))); }
                    N::Ite(c, p, q) => {
                        if as_k(*p).is_some() || as_k(*q).is_some() {
                            let (e1, e2) = (eq(*p, b), eq(*q, b));
                            return ite(*c, e1, e2);
                        }
                    }
                    _ => {}
                }
            } else {
                if let (N::Concat(h, l), N::Concat(h2, l2)) = (node(a), node(b)) { if width(*l) == width(*l2) { return and(eq(*h, *h2), eq(*l, *l2)); } }
                if let (N::Zext(x), N::Zext(y)) = (node(a), node(b)) { if width(*x) == width(*y) { return eq(*x, *y); } }
                if let (N::Sext(x), N::Sext(y)) = (node(a), node(b)) { if width(*x) == width(*y) { return eq(*x, *y); } }
                if let (N::FBits(x), N::FBits(y)) = (node(a), node(b)) { if x == y { return tt(); } }
                if w == 1 { return not(bin(BOp::Xor, a, b)); }
            }
            let (a, b) = if as_k(b).is_none() && a > b { (b, a) } else { (a, b) };
            return mk(N::Cmp(op, a, b), 1);
        }
    }
    // constants through zext and division
    if matches!(op, COp::Ult | COp::Ule) {
        if let (N::Bin(BOp::UDiv, x, c), Some(y)) = (node(a), as_k(b)) { if let (COp::Ult, Some(c)) = (op, as_k(*c)) { if c > 0 { return match c.checked_mul(y) { Some(z) if z <= mask(w) => cmp(op, *x, k(z, w)), _ => tt() }; } } }
        if let (Some(y), N::Bin(BOp::UDiv, x, c)) = (as_k(a), node(b)) { if let (COp::Ule, Some(c)) = (op, as_k(*c)) { if c > 0 { return match c.checked_mul(y) { Some(z) if z <= mask(w) => cmp(op, k(z, w), *x), _ => ff() }; } } }
        if let N::Zext(x) = node(a) { if let Some(y) = as_k(b) { let wx = width(*x); return if y > mask(wx) { tt() } else { cmp(op, *x, k(y, wx)) }; } }
        if let N::Zext(y) = node(b) { if let Some(x) = as_k(a) { let wy = width(*y); return if x > mask(wy) { ff() } else { cmp(op, k(x, wy), *y) }; } }
    }
    mk(N::Cmp(op, a, b), 1)
}

pub fn zext(a: T, w: u32) -> T {
    let wa = width(a);
    if wa == w { return a; }
    if let Some(v) = as_k(a) { return k(v, w); }
    if let N::Zext(x) = node(a) { return zext(*x, w); }
    mk(N::Zext(a), w)
}
pub fn sext(a: T, w: u32) -> T {
    let wa = width(a);
    if wa == w { return a; }
    if let Some(v) = as_k(a) { return k(sx(v, wa) as u128, w); }
    if hi(a) < 1u128 << (wa - 1) { return zext(a, w); }
    if let N::Sext(x) = node(a) { return sext(*x, w); }
    if wa == 1 { return ite(a, k(mask(w), w), k(0, w)); }
    mk(N::Sext(a), w)
}
pub fn extract(a: T, l: u32, n: u32) -> T {
    let w = width(a);
    if l == 0 && n == w { return a; }
    debug_assert!(l + n <= w);
    match node(a) {
        N::K(v) => return k(v >> l, n),
        N::Extract(x, l2) => return extract(*x, l + l2, n),
        N::Zext(x) => {
            let wx = width(*x);
            if l >= wx { return k(0, n); }
            if l + n <= wx { return extract(*x, l, n); }
            return zext(extract(*x, l, wx - l), n);
        }
        N::Sext(x) => { let wx = width(*x); if l + n <= wx { return extract(*x, l, n); } if l == 0 { return sext(*x, n); } }
        N::Concat(h, lo_) => {
            let wl = width(*lo_);
            if l >= wl { return extract(*h, l - wl, n); }
            if l + n <= wl { return extract(*lo_, l, n); }
            return concat(extract(*h, 0, l + n - wl), extract(*lo_, l, wl - l));
        }
        N::Ite(c, p, q) => { if as_k(*p).is_some() || as_k(*q).is_some() { return ite(*c, extract(*p, l, n), extract(*q, l, n)); } }
        N::Bin(op @ (BOp::And | BOp::Or | BOp::Xor), p, q) => return bin(*op, extract(*p, l, n), extract(*q, l, n)),
        N::Bin(op @ (BOp::Add | BOp::Mul | BOp::Sub), p, q) if l == 0 => return bin(*op, extract(*p, 0, n), extract(*q, 0, n)),
        _ => {}
    }
    mk(N::Extract(a, l), n)
}
pub fn concat(h: T, l: T) -> T {
    let w = width(h) + width(l);
    if let (Some(x), Some(y)) = (as_k(h), as_k(l)) { return k((x << width(l)) | y, w); }
    if as_k(h) == Some(0) { return zext(l, w); }
    if let N::Zext(x) = node(h) { return zext(concat(*x, l), w); }
    if let (N::Extract(x, lx), N::Extract(y, ly)) = (node(h), node(l)) { if x == y && *lx == *ly + width(l) { return extract(*x, *ly, w); } }
    // (concat h (concat m l)) with h,m adjacent extracts
    if let N::Concat(mid, l2) = node(l) {
        if let (N::Extract(x, lx), N::Extract(y, ly)) = (node(h), node(*mid)) { if x == y && *lx == *ly + width(*mid) { let nm = extract(*x, *ly, width(h) + width(*mid)); return concat(nm, *l2); } }
    }
    if let (N::Extract(x, lx), _) = (node(h), 0) { if *lx == width(l) && extract(*x, 0, *lx) == l { return extract(*x, 0, w); } }
    // right-nested normal form
    if let N::Concat(h1, h2) = node(h) { return concat(*h1, concat(*h2, l)); }
    mk(N::Concat(h, l), w)
}
pub fn ite(c: T, a: T, b: T) -> T {
    if a == b { return a; }
    match as_k(c) { Some(1) => return a, Some(0) => return b, _ => {} }
    let w = width(a);
    if w == 1 {
        match (as_k(a), as_k(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(0)) => return and(c, a),
            (_, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    if let Some(n) = not_raw(c) { return ite(n, b, a); }
    if let N::Ite(c2, p, q) = node(a) { if *c2 == c { return ite(c, *p, b); } let _ = q; }
    if let N::Ite(c2, _, q) = node(b) { if *c2 == c { return ite(c, a, *q); } }
    mk(N::Ite(c, a, b), w)
}
pub fn fp(op: FOp, args: Vec<T>, w: u32) -> T {
    let ks: Vec<u128> = args.iter().filter_map(|t| as_k(*t)).collect();
    if ks.len() == args.len() { if let Some(v) = eval_fp(op, &ks, width(args[0]), w) { return k(v, w); } }
    // x / 2^k = x * 2^-k
    if op == FOp::Div { if let Some(c) = as_k(args[1]) { let c = f64::from_bits(c as u64); let r = 1.0 / c; if c.is_normal() && r.is_normal() && c.to_bits() << 12 == 0 { return fp(FOp::Mul, vec![args[0], k(r.to_bits() as u128, 64)], w); } } }
    mk(N::Fp(op, args), w)
}
pub fn eval_fp(op: FOp, a: &[u128], aw: u32, w: u32) -> Option<u128> {
    let f = |i: usize| f64::from_bits(a[i] as u64);
    let r = |x: f64| Some(x.to_bits() as u128);
    match op {
        FOp::Add => r(f(0) + f(1)),
        FOp::Sub => r(f(0) - f(1)),
        FOp::Mul => r(f(0) * f(1)),
        FOp::Div => r(f(0) / f(1)),
        FOp::Sqrt => r(f(0).sqrt()),
        FOp::RoundEven => r(f(0).round_ties_even()),
        FOp::RoundAway => r(f(0).round()),
        FOp::Trunc => r(f(0).trunc()),
        FOp::Floor => r(f(0).floor()),
        FOp::Ceil => r(f(0).ceil()),
        FOp::Abs => r(f(0).abs()),
        FOp::Neg => r(-f(0)),
        FOp::Min => r(f(0).min(f(1))),
        FOp::Max => r(f(0).max(f(1))),
        FOp::Fma => r(f(0).mul_add(f(1), f(2))),
        FOp::Lt => Some((f(0) < f(1)) as u128),
        FOp::Le => Some((f(0) <= f(1)) as u128),
        FOp::Eq => Some((f(0) == f(1)) as u128),
        FOp::IsNan => Some(f(0).is_nan() as u128),
        FOp::FromS => r(sx(a[0], aw) as f64),
        FOp::FromU => r(a[0] as f64),
        FOp::ToS => { let v = f(0); if v.is_nan() { return Some(0); } let (mn, mx) = (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)); if v < mn { return Some(1u128 << (w - 1)); } if v >= mx { return Some(mask(w - 1)); } Some(v.trunc() as i128 as u128 & mask(w)) }
        FOp::ToU => { let v = f(0); if v.is_nan() || v <= 0.0 { return Some(0); } if v >= 2f64.powi(w as i32) { return Some(mask(w)); } Some(v.trunc() as u128) }
    }
}

/// Evaluate under an assignment of the variables; None where an uninterpreted part is met.
pub fn eval(t: T, model: &HashMap<u32, u128>, memo: &mut HashMap<T, Option<u128>>) -> Option<u128> {
    if let N::K(v) = node(t) { return Some(*v); }
    if let Some(v) = memo.get(&t) { return *v; }
    let w = width(t);
    let r = (|| -> Option<u128> {
        Some(match node(t) {
            N::K(v) => *v,
            N::Var(i) => *model.get(i).unwrap_or(&0),
            N::Bin(op, a, b) => {
                let (x, y) = (eval(*a, model, memo)?, eval(*b, model, memo)?);
                match fold_bin(*op, x, y, w) { Some(v) => v, None => match op { BOp::UDiv => mask(w), BOp::URem => x, BOp::SDiv => if sx(x, w) < 0 { 1 } else { mask(w) }, _ => x } }
            }
            N::Cmp(op, a, b) => {
                let wa = width(*a);
                let (x, y) = (eval(*a, model, memo)?, eval(*b, model, memo)?);
                (match op { COp::Eq => x == y, COp::Ult => x < y, COp::Ule => x <= y, COp::Slt => sx(x, wa) < sx(y, wa), COp::Sle => sx(x, wa) <= sx(y, wa) }) as u128
            }
            N::Zext(a) => eval(*a, model, memo)?,
            N::Sext(a) => sx(eval(*a, model, memo)?, width(*a)) as u128 & mask(w),
            N::Extract(a, l) => (eval(*a, model, memo)? >> l) & mask(w),
            N::Concat(h, l) => (eval(*h, model, memo)? << width(*l)) | eval(*l, model, memo)?,
            N::Ite(c, a, b) => if eval(*c, model, memo)? == 1 { eval(*a, model, memo)? } else { eval(*b, model, memo)? },
            N::FBits(_) | N::RLit(_) | N::Uf(..) => return None,
            N::Fp(op, v) => {
                let mut ks = vec![];
                for x in v { ks.push(eval(*x, model, memo)?); }
                return eval_fp(*op, &ks, width(v[0]), w);
            }
        })
    })();
    memo.insert(t, r);
    r
}

/// Rebuild with leaf replacements.
pub fn rewrite(t: T, f: &dyn Fn(T) -> Option<T>, memo: &mut HashMap<T, T>) -> T {
    if matches!(node(t), N::K(_)) { return t; }
    if let Some(r) = memo.get(&t) { return *r; }
    let r = if let Some(r) = f(t) { r } else {
        let w = width(t);
        match node(t).clone() {
            N::Bin(op, a, b) => { let (x, y) = (rewrite(a, f, memo), rewrite(b, f, memo)); if x == a && y == b { t } else { bin(op, x, y) } }
            N::Cmp(op, a, b) => { let (x, y) = (rewrite(a, f, memo), rewrite(b, f, memo)); if x == a && y == b { t } else { cmp(op, x, y) } }
            N::Zext(a) => { let x = rewrite(a, f, memo); if x == a { t } else { zext(x, w) } }
            N::Sext(a) => { let x = rewrite(a, f, memo); if x == a { t } else { sext(x, w) } }
            N::Extract(a, l) => { let x = rewrite(a, f, memo); if x == a { t } else { extract(x, l, w) } }
            N::Concat(a, b) => { let (x, y) = (rewrite(a, f, memo), rewrite(b, f, memo)); if x == a && y == b { t } else { concat(x, y) } }
            N::Ite(c, a, b) => {
                let z = rewrite(c, f, memo);
                match as_k(z) {
                    Some(1) => rewrite(a, f, memo),
                    Some(_) => rewrite(b, f, memo),
                    None => { let (x, y) = (rewrite(a, f, memo), rewrite(b, f, memo)); if z == c && x == a && y == b { t } else { ite(z, x, y) } }
                }
            }
            N::Fp(op, v) => { let nv: Vec<T> = v.iter().map(|x| rewrite(*x, f, memo)).collect(); if nv == v { t } else { fp(op, nv, w) } }
            N::Uf(i, v) => { let nv: Vec<T> = v.iter().map(|x| rewrite(*x, f, memo)).collect(); if nv == v { t } else { mk(N::Uf(i, nv), w) } }
            _ => t,
        }
    };
    memo.insert(t, r);
    r
}

pub fn leaves(t: T, out: &mut Vec<T>, seen: &mut std::collections::HashSet<T>) {
    if !seen.insert(t) { return; }
    let n = node(t);
    if matches!(n, N::Var(_) | N::FBits(_) | N::RLit(_)) { out.push(t); return; }
    for x in kids(n) { leaves(x, out, seen); }
}
pub fn children(t: T) -> Vec<T> { kids(node(t)) }

pub fn show(t: T, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match node(t) {
        N::Var(i) => format!("v{}:{}", i, width(t)), N::K(v) => format!("{:x}:{}", v, width(t)),
        N::Bin(o, a, b) => format!("({:?} {} {})", o, show(*a, d - 1), show(*b, d - 1)),
        N::Cmp(o, a, b) => format!("({:?} {} {})", o, show(*a, d - 1), show(*b, d - 1)),
        N::Zext(a) => format!("(zext{} {})", width(t), show(*a, d - 1)), N::Sext(a) => format!("(sext{} {})", width(t), show(*a, d - 1)),
        N::Extract(a, l) => format!("(ext[{}+{}] {})", l, width(t), show(*a, d - 1)),
        N::Concat(a, b) => format!("(cat {} {})", show(*a, d - 1), show(*b, d - 1)),
        N::Ite(c, a, b) => format!("(ite {} {} {})", show(*c, d - 1), show(*a, d - 1), show(*b, d - 1)),
        n => format!("{:?}", n),
    }
}
