//! Symbolic reals: interned polynomials over bounded atoms, literals over them, and the per-path
//! context (substitutions, sphere rule, decided literals, witness valuations).
use crate::term::{self, T};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type F = u32;
pub type V = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum VK {
    Free(f64, f64),
    Angle,
    Amp,
    CosH(V),
    SinH(V),
    CosOf(F),
    SinOf(F),
    Sqrt(F),
    Inv(F),
    Pos(F),
    Uf(String, Vec<F>),
    AngleOf(F, F),
    /// opaque real view of a bit-vector term (integer to float conversion)
    OfInt(T, bool),
}
pub struct VarInfo { pub kind: &'static VK, pub name: String }

type Mono = Vec<(V, u32)>;
pub type Poly = Vec<(u32, f64)>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum LK { Zero, Le, Lt }

pub struct FA {
    pub monos: Vec<Mono>,
    monomap: HashMap<Mono, u32>,
    pub polys: Vec<Rc<Poly>>,
    polymap: HashMap<Vec<(u32, u64)>, F>,
    pub vars: Vec<VarInfo>,
    atoms: HashMap<String, V>,
    pub lits: Vec<(LK, F)>,
    litmap: HashMap<(LK, F), u32>,
    mul1: HashMap<(u32, u32), F>, // reduced product of two monomials
    bin_memo: HashMap<(u8, F, F), F>,
}
static mut FAR: Option<FA> = None;
#[allow(static_mut_refs)]
pub fn fa() -> &'static mut FA {
    unsafe {
        if FAR.is_none() {
            let mut f = FA { monos: vec![], monomap: HashMap::new(), polys: vec![], polymap: HashMap::new(), vars: vec![], atoms: HashMap::new(), lits: vec![], litmap: HashMap::new(), mul1: HashMap::new(), bin_memo: HashMap::new() };
            f.monos.push(vec![]);
            f.monomap.insert(vec![], 0);
            FAR = Some(f);
        }
        FAR.as_mut().unwrap()
    }
}
const EPS: f64 = 1e-12;
/// |x| <= k with k below this is read as x = 0 (stated abstraction)
pub const THIN: f64 = 1e-7;

fn mono_id(m: Mono) -> u32 {
    let a = fa();
    if let Some(i) = a.monomap.get(&m) { return *i; }
    let i = a.monos.len() as u32;
    a.monos.push(m.clone());
    a.monomap.insert(m, i);
    i
}
pub fn poly(f: F) -> Rc<Poly> { fa().polys[f as usize].clone() }
fn intern(mut p: Poly) -> F {
    p.retain(|x| x.1.abs() > EPS);
    p.sort_by_key(|x| x.0);
    let key: Vec<(u32, u64)> = p.iter().map(|x| (x.0, round_key(x.1))).collect();
    let a = fa();
    if let Some(i) = a.polymap.get(&key) { return *i; }
    let i = a.polys.len() as F;
    a.polys.push(Rc::new(p));
    a.polymap.insert(key, i);
    i
}
/// coefficients that differ only by rounding noise share a key
fn round_key(c: f64) -> u64 {
    let e = c.abs().log2().floor();
    let s = 2f64.powf(42.0 - e);
    ((c * s).round() / s).to_bits()
}
fn from_map(m: HashMap<u32, f64>) -> F { intern(m.into_iter().collect()) }
pub fn cst(c: f64) -> F { intern(vec![(0, c)]) }
pub fn var(v: V) -> F { intern(vec![(mono_id(vec![(v, 1)]), 1.0)]) }
pub fn as_const(f: F) -> Option<f64> {
    let p = &fa().polys[f as usize];
    match p.len() { 0 => Some(0.0), 1 if p[0].0 == 0 => Some(p[0].1), _ => None }
}
pub fn new_var(kind: VK, name: &str) -> V {
    let a = fa();
    a.vars.push(VarInfo { kind: Box::leak(Box::new(kind)), name: name.to_string() });
    a.vars.len() as V - 1
}
fn atom(key: String, kind: VK) -> V {
    if let Some(v) = fa().atoms.get(&key) { return *v; }
    let v = new_var(kind, &key);
    fa().atoms.insert(key, v);
    v
}
pub fn kind(v: V) -> &'static VK { fa().vars[v as usize].kind }

pub fn add(a: F, b: F) -> F { lin(a, 1.0, b, 1.0) }
pub fn sub(a: F, b: F) -> F { lin(a, 1.0, b, -1.0) }
pub fn neg(a: F) -> F { scale(a, -1.0) }
pub fn scale(a: F, k: f64) -> F { intern(poly(a).iter().map(|x| (x.0, x.1 * k)).collect()) }
pub fn lin(a: F, ka: f64, b: F, kb: f64) -> F {
    let (pa, pb) = (poly(a), poly(b));
    let mut r: Poly = Vec::with_capacity(pa.len() + pb.len());
    let (mut i, mut j) = (0, 0);
    while i < pa.len() || j < pb.len() {
        if j >= pb.len() || (i < pa.len() && pa[i].0 < pb[j].0) { r.push((pa[i].0, pa[i].1 * ka)); i += 1; }
        else if i >= pa.len() || pb[j].0 < pa[i].0 { r.push((pb[j].0, pb[j].1 * kb)); j += 1; }
        else {
            let (x, y) = (pa[i].1 * ka, pb[j].1 * kb);
            let s = x + y;
            if s.abs() > EPS.max(1e-13 * x.abs()) { r.push((pa[i].0, s)); }
            i += 1;
            j += 1;
        }
    }
    intern(r)
}
fn acc(m: &mut HashMap<u32, f64>, f: F, k: f64) { for (mo, c) in fa().polys[f as usize].clone().iter() { *m.entry(*mo).or_insert(0.0) += c * k; } }

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let mut r = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) { r.push(a[i]); i += 1; }
        else if i >= a.len() || b[j].0 < a[i].0 { r.push(b[j]); j += 1; }
        else { r.push((a[i].0, a[i].1 + b[j].1)); i += 1; j += 1; }
    }
    r
}
/// a / b if divisible
fn mono_div(a: &Mono, b: &Mono) -> Option<Mono> {
    let mut r = Vec::with_capacity(a.len());
    let mut j = 0;
    for (v, e) in a {
        if j < b.len() && b[j].0 == *v {
            if b[j].1 > *e { return None; }
            if *e > b[j].1 { r.push((*v, e - b[j].1)); }
            j += 1;
        } else if j < b.len() && b[j].0 < *v { return None; } else { r.push((*v, *e)); }
    }
    if j < b.len() { return None; }
    Some(r)
}
fn deg(m: &Mono) -> u32 { m.iter().map(|x| x.1).sum() }
fn mono_gt(a: &Mono, b: &Mono) -> bool {
    let (da, db) = (deg(a), deg(b));
    if da != db { return da > db; }
    a.iter().rev().cmp(b.iter().rev()) == std::cmp::Ordering::Greater
}
fn lead(f: F) -> (Mono, f64) {
    let p = poly(f);
    let mut b = 0;
    for i in 1..p.len() { if mono_gt(&fa().monos[p[i].0 as usize], &fa().monos[p[b].0 as usize]) { b = i; } }
    (fa().monos[p[b].0 as usize].clone(), p[b].1)
}

/// static rewrite of one monomial, if a rule applies
fn static_rule(m: &Mono) -> Option<(Mono, F)> {
    // returns (quotient, replacement polynomial)
    for (v, e) in m {
        match kind(*v) {
            VK::SinH(a) if *e >= 2 => { let c = var(cosh(*a)); return Some((mono_div(m, &vec![(*v, 2)]).unwrap(), sub(cst(1.0), mul(c, c)))); }
            VK::SinOf(p) if *e >= 2 => { let c = var(atom(format!("cos#{}", p), VK::CosOf(*p))); return Some((mono_div(m, &vec![(*v, 2)]).unwrap(), sub(cst(1.0), mul(c, c)))); }
            VK::Sqrt(p) if *e >= 2 => return Some((mono_div(m, &vec![(*v, 2)]).unwrap(), *p)),
            VK::Inv(p) => {
                let (l, c) = lead(*p);
                let mut tl = mono_mul(&vec![(*v, 1)], &l);
                if let Some(q) = mono_div(m, &tl) {
                    let rest = sub(cst(1.0), mul(var(*v), sub(*p, intern(vec![(mono_id(l), c)]))));
                    return Some((q, scale(rest, 1.0 / c)));
                }
                // inverse of a square root: t^2 * P = 1
                if *e >= 2 && l.len() == 1 && l[0].1 == 1 {
                    if let VK::Sqrt(pp) = kind(l[0].0) {
                        if poly(*p).len() == 1 && as_const(*pp).is_none() {
                            let (l2, c2) = lead(*pp);
                            tl = mono_mul(&vec![(*v, 2)], &l2);
                            if let Some(q) = mono_div(m, &tl) {
                                let t2 = intern(vec![(mono_id(vec![(*v, 2)]), 1.0)]);
                                let rest = sub(cst(c * c), mul(t2, sub(*pp, intern(vec![(mono_id(l2), c2)]))));
                                // t = 1/(c r): t^2 c^2 P = 1
                                return Some((q, scale(rest_fix(rest, c), 1.0 / c2)));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    None
}
fn rest_fix(r: F, c: f64) -> F { if (c - 1.0).abs() < 1e-12 { r } else {
    // constant term was c^2, must be 1/c^2
    let k = 1.0 / (c * c) - c * c;
    add(r, cst(k))
} }

fn mono_prod(a: u32, b: u32) -> F {
    if a == 0 { return intern(vec![(b, 1.0)]); }
    if b == 0 { return intern(vec![(a, 1.0)]); }
    let key = if a < b { (a, b) } else { (b, a) };
    if let Some(f) = fa().mul1.get(&key) { return *f; }
    let m = mono_mul(&fa().monos[a as usize], &fa().monos[b as usize]);
    let r = reduce(m);
    fa().mul1.insert(key, r);
    r
}
fn reduce(m: Mono) -> F {
    match static_rule(&m) {
        None => intern(vec![(mono_id(m), 1.0)]),
        // what is left of the monomial may be reducible in turn
        Some((q, rep)) => mul(reduce(q), rep),
    }
}
pub fn mul(a: F, b: F) -> F {
    if let Some(k) = as_const(a) { return scale(b, k); }
    if let Some(k) = as_const(b) { return scale(a, k); }
    let key = if a < b { (0u8, a, b) } else { (0u8, b, a) };
    if let Some(f) = fa().bin_memo.get(&key) { return *f; }
    let (pa, pb) = (poly(a), poly(b));
    let mut m: HashMap<u32, f64> = HashMap::with_capacity(pa.len() * pb.len());
    for (x, cx) in pa.iter() { for (y, cy) in pb.iter() { let f = mono_prod(*x, *y); acc(&mut m, f, cx * cy); } }
    let r = from_map(m);
    fa().bin_memo.insert(key, r);
    r
}
pub fn cosh(a: V) -> V { atom(format!("cosh#{}", a), VK::CosH(a)) }
pub fn sinh(a: V) -> V { atom(format!("sinh#{}", a), VK::SinH(a)) }

pub fn abs(a: F) -> F {
    if let Some(c) = as_const(a) { return cst(c.abs()); }
    sub(scale(pos(a), 2.0), a)
}
pub fn pos(a: F) -> F {
    if let Some(c) = as_const(a) { return cst(c.max(0.0)); }
    let (l, _) = bounds(a);
    if l >= 0.0 { return a; }
    // canonical orientation: pos(-x) = pos(x) - x
    let p = poly(a);
    if p[0].1 < 0.0 { let n = neg(a); return sub(pos(n), n); }
    let c = p[0].1;
    let u = scale(a, 1.0 / c);
    scale(var(atom(format!("pos#{}", u), VK::Pos(u))), c)
}
pub fn max(a: F, b: F) -> F { add(b, pos(sub(a, b))) }
pub fn min(a: F, b: F) -> F { sub(a, pos(sub(a, b))) }
pub fn sqrt(a: F) -> F {
    if let Some(c) = as_const(a) { return cst(c.max(0.0).sqrt()); }
    let p = poly(a);
    if p.len() == 1 {
        let m = fa().monos[p[0].0 as usize].clone();
        if m.len() == 1 && m[0].1 == 2 && p[0].1 > 0.0 { return scale(abs(var(m[0].0)), p[0].1.sqrt()); }
    }
    var(atom(format!("sqrt#{}", a), VK::Sqrt(a)))
}
pub fn inv(a: F) -> F {
    if let Some(c) = as_const(a) { return cst(1.0 / c); }
    let (_, c) = lead(a);
    let u = scale(a, 1.0 / c);
    if let Some((x, e)) = single_var(u) { if e == 1 { if let VK::Inv(p) = kind(x) { return scale(*p, 1.0 / c); } } }
    scale(var(atom(format!("inv#{}", u), VK::Inv(u))), 1.0 / c)
}
fn single_var(u: F) -> Option<(V, u32)> { let p = poly(u); if p.len() != 1 { return None; } let m = &fa().monos[p[0].0 as usize]; if m.len() == 1 { Some(m[0]) } else { None } }
pub fn div(a: F, b: F) -> F { mul(a, inv(b)) }
pub fn uf(name: &str, args: Vec<F>) -> F { var(atom(format!("{}#{:?}", name, args), VK::Uf(name.to_string(), args))) }
pub fn of_int(t: T, signed: bool) -> F { var(atom(format!("int#{}#{}", t, signed), VK::OfInt(t, signed))) }

/// (cos, sin) of a polynomial that is linear in angle variables
pub fn cossin(a: F) -> (F, F) {
    if let Some(c) = as_const(a) { return (cst(c.cos()), cst(c.sin())); }
    let p = poly(a);
    let mut c = cst(1.0);
    let mut s = cst(0.0);
    for (m, k) in p.iter() {
        let mo = fa().monos[*m as usize].clone();
        let (c2, s2) = if mo.is_empty() { (cst(k.cos()), cst(k.sin())) } else {
            let n = 2.0 * k;
            if mo.len() != 1 || mo[0].1 != 1 || (n - n.round()).abs() > 1e-12 || n.abs() > 8.0 { return general_cossin(a); }
            let v = mo[0].0;
            let (bc, bs) = match kind(v) {
                VK::Angle => (var(cosh(v)), var(sinh(v))),
                VK::AngleOf(x, y) => (*x, *y),
                _ => return general_cossin(a),
            };
            let mut r = (cst(1.0), cst(0.0));
            for _ in 0..(n.round().abs() as u32) { r = (sub(mul(r.0, bc), mul(r.1, bs)), add(mul(r.1, bc), mul(r.0, bs))); }
            if n < 0.0 { r.1 = neg(r.1); }
            r
        };
        let nc = sub(mul(c, c2), mul(s, s2));
        let ns = add(mul(s, c2), mul(c, s2));
        c = nc;
        s = ns;
    }
    (c, s)
}
fn general_cossin(a: F) -> (F, F) { (var(atom(format!("cos#{}", a), VK::CosOf(a))), var(atom(format!("sin#{}", a), VK::SinOf(a)))) }

pub fn var_bounds(v: V) -> (f64, f64) {
    match kind(v) {
        VK::Free(l, h) => (*l, *h),
        VK::Amp | VK::CosH(_) | VK::SinH(_) | VK::CosOf(_) | VK::SinOf(_) => (-1.0, 1.0),
        VK::Sqrt(p) => { let (_, h) = bounds(*p); (0.0, h.max(0.0).sqrt()) }
        VK::Pos(p) => { let (_, h) = bounds(*p); (0.0, h.max(0.0)) }
        _ => (f64::NEG_INFINITY, f64::INFINITY),
    }
}
pub fn bounds(f: F) -> (f64, f64) {
    let p = poly(f);
    let (mut l, mut h) = (0.0, 0.0);
    for (m, c) in p.iter() {
        let (mut ml, mut mh) = (1.0f64, 1.0f64);
        for (v, e) in fa().monos[*m as usize].clone() {
            let (vl, vh) = var_bounds(v);
            let (pl, ph) = if e % 2 == 0 { let x = vl.abs().max(vh.abs()).powi(e as i32); (if vl > 0.0 { vl.powi(e as i32) } else { 0.0 }, x) } else { (vl.powi(e as i32), vh.powi(e as i32)) };
            let c4 = [ml * pl, ml * ph, mh * pl, mh * ph];
            ml = c4.iter().cloned().fold(f64::INFINITY, |a, b| if b.is_nan() { f64::NEG_INFINITY } else { a.min(b) });
            mh = c4.iter().cloned().fold(f64::NEG_INFINITY, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
        }
        if *c >= 0.0 { l += c * ml; h += c * mh; } else { l += c * mh; h += c * ml; }
    }
    (l, h)
}

pub fn lit(kd: LK, f: F) -> T {
    if let Some(c) = as_const(f) {
        let b = match kd { LK::Zero => c.abs() <= 1e-10, LK::Le => c <= 1e-12, LK::Lt => c < 0.0 };
        return term::k(b as u128, 1);
    }
    let c = poly(f)[0].1;
    let f = scale(f, 1.0 / if kd == LK::Zero { c } else { c.abs() });
    let a = fa();
    let id = match a.litmap.get(&(kd, f)) { Some(i) => *i, None => { a.lits.push((kd, f)); let i = a.lits.len() as u32 - 1; a.litmap.insert((kd, f), i); i } };
    term::rlit(id)
}
/// a < b or a <= b as a boolean term
pub fn less(a: F, b: F, strict: bool) -> T {
    let d = sub(a, b);
    if let Some(c) = as_const(d) {
        // the true constant difference, not rounded by interning
        return term::k(if strict { c < 0.0 } else { c <= 0.0 } as u128, 1);
    }
    // a non-negative value against a tiny constant
    if let Some(k) = as_const(b) { if k >= 0.0 && k <= THIN && bounds(a).0 >= -1e-12 { return if k == 0.0 && strict { term::ff() } else { lit(LK::Zero, a) }; } }
    if let Some(k) = as_const(a) { if k >= 0.0 && k <= THIN && bounds(b).0 >= -1e-12 { return if k == 0.0 && !strict { term::tt() } else { term::not(lit(LK::Zero, b)) }; } }
    let p = poly(d);
    // |x| against a constant
    for (m, c) in p.iter() {
        let mo = fa().monos[*m as usize].clone();
        for (v, e) in &mo {
            if let VK::Pos(q) = kind(*v) {
                if mo.len() == 1 && *e == 1 {
                    // d = c*(Pos q) + rest ; |q| = 2 Pos q - q
                    let rest = sub(d, scale(abs(*q), c / 2.0));
                    let kap = c / 2.0;
                    // constant bound may have been dropped by interning: use the operands
                    let kc = if let Some(kk) = as_const(rest) { Some(kk) } else { None };
                    if let Some(kk) = kc {
                        // kap*|q| + kk (<|<=) 0
                        if kap > 0.0 {
                            let bound = -kk / kap;
                            if bound < 0.0 { return term::ff(); }
                            if bound <= THIN { if bound == 0.0 && strict && raw_zero_bound(a, b) { return term::ff(); } return lit(LK::Zero, *q); }
                            let k = if strict { LK::Lt } else { LK::Le };
                            return term::and(lit(k, sub(*q, cst(bound))), lit(k, sub(neg(*q), cst(bound))));
                        } else {
                            let bound = kk / -kap;
                            if bound < 0.0 { return term::tt(); }
                            if bound <= THIN { if bound == 0.0 && !strict && raw_zero_bound(a, b) { return term::tt(); } return term::not(lit(LK::Zero, *q)); }
                            let k = if strict { LK::Le } else { LK::Lt };
                            return term::not(term::and(lit(k, sub(*q, cst(bound))), lit(k, sub(neg(*q), cst(bound)))));
                        }
                    }
                }
                // split on the sign
                let d0 = subst_var(d, *v, cst(0.0));
                let d1 = subst_var(d, *v, *q);
                let l = lit(LK::Le, *q);
                return term::ite(l, less(d0, cst(0.0), strict), less(d1, cst(0.0), strict));
            }
        }
    }
    // sum of squares <= tiny
    if p.iter().all(|(m, c)| { let mo = &fa().monos[*m as usize]; *c > 0.0 && mo.len() == 1 && mo[0].1 == 2 }) {
        let mut r = term::tt();
        for (m, _) in p.iter() { r = term::and(r, lit(LK::Zero, var(fa().monos[*m as usize][0].0))); }
        return r;
    }
    lit(if strict { LK::Lt } else { LK::Le }, d)
}
fn raw_zero_bound(a: F, b: F) -> bool { as_const(a) == Some(0.0) || as_const(b) == Some(0.0) }
pub fn equal(a: F, b: F) -> T { lit(LK::Zero, sub(a, b)) }

pub fn subst_var(f: F, v: V, r: F) -> F {
    let mut out: HashMap<u32, f64> = HashMap::new();
    for (m, c) in poly(f).iter() {
        let mo = fa().monos[*m as usize].clone();
        if let Some(x) = mo.iter().find(|x| x.0 == v) {
            let e = x.1;
            let q: Mono = mo.iter().filter(|x| x.0 != v).cloned().collect();
            let mut g = intern(vec![(mono_id(q), 1.0)]);
            for _ in 0..e { g = mul(g, r); }
            acc(&mut out, g, *c);
        } else { *out.entry(*m).or_insert(0.0) += c; }
    }
    from_map(out)
}

// ---------------------------------------------------------------- path context

pub type Valn = Rc<RefCell<HashMap<V, f64>>>;

#[derive(Clone)]
pub struct Ctx {
    pub subst: Rc<HashMap<V, F>>,
    pub sphere: Rc<Vec<V>>,
    pub lits: Vec<(u32, bool)>,
    pub known: HashMap<u32, bool>,
    pub samples: Vec<Valn>,
    memo: Rc<RefCell<HashMap<F, F>>>,
    pub thin_left: i32,
    pub base: Vec<V>,
    pub thin_used: u32,
}
impl Ctx {
    pub fn new() -> Ctx { Ctx { subst: Rc::new(HashMap::new()), sphere: Rc::new(vec![]), lits: vec![], known: HashMap::new(), samples: vec![], memo: Rc::new(RefCell::new(HashMap::new())), thin_left: 2, base: vec![], thin_used: 0 } }
    pub fn describe(&self) -> String {
        let mut o = String::new();
        for (v, f) in self.subst.iter() { o += &format!("{} := {}; ", fa().vars[*v as usize].name, show(*f)); }
        for (l, b) in &self.lits { let (k, f) = fa().lits[*l as usize]; o += &format!("{:?}({}) = {}; ", k, show(f), b); }
        o
    }
    pub fn norm(&self, f: F) -> F {
        if self.subst.is_empty() && self.sphere.is_empty() { return f; }
        if let Some(r) = self.memo.borrow().get(&f) { return *r; }
        let r = self.norm0(f);
        self.memo.borrow_mut().insert(f, r);
        self.memo.borrow_mut().insert(r, r);
        r
    }
    fn nv(&self, v: V) -> F {
        if let Some(f) = self.subst.get(&v) { return *f; }
        match kind(v).clone() {
            VK::CosH(a) => if let Some(f) = self.subst.get(&a) { return cossin(scale(*f, 0.5)).0; },
            VK::SinH(a) => if let Some(f) = self.subst.get(&a) { return cossin(scale(*f, 0.5)).1; },
            VK::CosOf(p) => { let q = self.norm(p); if q != p { return cossin(q).0; } }
            VK::SinOf(p) => { let q = self.norm(p); if q != p { return cossin(q).1; } }
            VK::Sqrt(p) => { let q = self.norm(p); if q != p { return sqrt(q); } }
            VK::Inv(p) => { let q = self.norm(p); if q != p { return inv(q); } }
            VK::Pos(p) => { let q = self.norm(p); if q != p { return pos(q); } }
            VK::AngleOf(c, s) => { let (c2, s2) = (self.norm(c), self.norm(s)); if c2 != c || s2 != s { return angle_of(c2, s2); } }
            VK::Uf(n, a) => { let b: Vec<F> = a.iter().map(|x| self.norm(*x)).collect(); if b != a { return uf(&n, b); } }
            _ => {}
        }
        var(v)
    }
    fn norm0(&self, f: F) -> F {
        let mut out: HashMap<u32, f64> = HashMap::new();
        for (m, c) in poly(f).iter() {
            let mo = fa().monos[*m as usize].clone();
            let mut keep: Mono = vec![];
            let mut g = cst(1.0);
            for (v, e) in &mo {
                let n = self.nv(*v);
                if n == var(*v) { keep.push((*v, *e)); } else { for _ in 0..*e { g = mul(g, n); } }
            }
            g = mul(g, intern(vec![(mono_id(keep), 1.0)]));
            acc(&mut out, g, *c);
        }
        let mut r = from_map(out);
        if let Some(&lv) = self.sphere.last() {
            for _ in 0..8 {
                let p = poly(r);
                if !p.iter().any(|(m, _)| fa().monos[*m as usize].iter().any(|x| x.0 == lv && x.1 >= 2)) { break; }
                let mut q = cst(1.0);
                for v in self.sphere.iter() { if *v != lv { let x = var(*v); q = sub(q, mul(x, x)); } }
                let mut out: HashMap<u32, f64> = HashMap::new();
                for (m, c) in p.iter() {
                    let mo = fa().monos[*m as usize].clone();
                    if let Some(qm) = mono_div(&mo, &vec![(lv, 2)]) { let g = mul(intern(vec![(mono_id(qm), 1.0)]), q); acc(&mut out, g, *c); } else { *out.entry(*m).or_insert(0.0) += c; }
                }
                r = from_map(out);
            }
        }
        if r != f && !self.subst.is_empty() { let r2 = self.memo.borrow().get(&r).copied(); if let Some(x) = r2 { return x; } }
        r
    }
    // ---- numeric evaluation
    pub fn ev_var(&self, v: V, s: &Valn) -> f64 {
        if let Some(x) = s.borrow().get(&v) { return *x; }
        let x = if let Some(f) = self.subst.get(&v) { self.ev(*f, s) } else {
            match kind(v).clone() {
                VK::CosH(a) => (self.ev_var(a, s) / 2.0).cos(),
                VK::SinH(a) => (self.ev_var(a, s) / 2.0).sin(),
                VK::CosOf(p) => self.ev(p, s).cos(),
                VK::SinOf(p) => self.ev(p, s).sin(),
                VK::Sqrt(p) => self.ev(p, s).max(0.0).sqrt(),
                VK::Inv(p) => 1.0 / self.ev(p, s),
                VK::Pos(p) => self.ev(p, s).max(0.0),
                VK::AngleOf(c, ss) => 2.0 * self.ev(ss, s).atan2(self.ev(c, s)),
                VK::Uf(n, a) => { let av: Vec<f64> = a.iter().map(|x| self.ev(*x, s)).collect(); eval_uf(&n, &av) }
                _ => f64::NAN,
            }
        };
        s.borrow_mut().insert(v, x);
        x
    }
    pub fn ev(&self, f: F, s: &Valn) -> f64 {
        let mut t = 0.0;
        for (m, c) in poly(f).iter() {
            let mut x = *c;
            for (v, e) in fa().monos[*m as usize].clone() { x *= self.ev_var(v, s).powi(e as i32); }
            t += x;
        }
        t
    }
    pub fn lit_on(&self, l: u32, s: &Valn) -> Option<bool> {
        let (k, f) = fa().lits[l as usize];
        let x = self.ev(f, s);
        if x.is_nan() { return None; }
        match k {
            LK::Zero => if x.abs() <= 1e-11 { Some(true) } else if x.abs() > 1e-6 { Some(false) } else { None },
            LK::Le => if x <= 0.0 { if x < -1e-7 || x == 0.0 { Some(true) } else { None } } else if x > 1e-7 { Some(false) } else { None },
            LK::Lt => if x < -1e-7 { Some(true) } else if x > 1e-7 || x == 0.0 { Some(false) } else { None },
        }
    }
    fn ok(&self, s: &Valn) -> bool { self.lits.iter().all(|(l, b)| self.lit_on(*l, s) == Some(*b)) }
    pub fn resample(&mut self, want: usize, tries: usize, rng: &mut Rng) {
        let mut n = 0;
        while self.samples.len() < want && n < tries {
            n += 1;
            let mut m: HashMap<V, f64> = HashMap::new();
            // sphere members
            let mut sum = 0.0;
            let mode = rng.next() % 4;
            for v in self.sphere.iter() {
                let x = if mode == 0 && rng.next() % 3 == 0 { 0.05 * rng.gauss() } else { rng.gauss() };
                m.insert(*v, x);
                sum += x * x;
            }
            let r = sum.sqrt();
            for v in self.sphere.iter() { *m.get_mut(v).unwrap() /= r; }
            for v in &self.base {
                if self.subst.contains_key(v) || m.contains_key(v) { continue; }
                let x = match kind(*v) {
                    VK::Free(l, h) => { let (l, h) = (l.max(-1e3), h.min(1e3)); match rng.next() % 10 { 0 => l, 1 => (l + h) / 2.0, _ => { let x = l + (h - l) * rng.f(); if x >= h { l } else { x } } } }
                    VK::Angle => { let t = rng.f() * 12.0 - 6.0; match rng.next() % 5 { 0 => t * 0.1, 1 => t * 2.4, _ => t } }
                    _ => continue,
                };
                m.insert(*v, x);
            }
            let s: Valn = Rc::new(RefCell::new(m));
            if self.ok(&s) { self.samples.push(s); }
        }
    }
    /// add a decided literal (already normalised) and filter the witnesses
    pub fn assume(&mut self, l: u32, b: bool) {
        if self.known.insert(l, b).is_none() { self.lits.push((l, b)); }
        let me: &Ctx = self;
        let keep: Vec<Valn> = me.samples.iter().filter(|s| me.lit_on(l, s) == Some(b)).cloned().collect();
        self.samples = keep;
    }
    /// after a substitution: renormalise the literals; false if one became contradictory
    fn rebuild(&mut self) -> bool {
        self.memo = Rc::new(RefCell::new(HashMap::new()));
        let old = std::mem::take(&mut self.lits);
        self.known.clear();
        for (l, b) in old {
            let (k, f) = fa().lits[l as usize];
            let t = lit(k, self.norm(f));
            match term::node(t) {
                term::N::K(v) => { if (*v == 1) != b { return false; } }
                term::N::RLit(l2) => { if self.known.insert(*l2, b).is_none() { self.lits.push((*l2, b)); } }
                _ => {}
            }
        }
        self.samples.clear();
        true
    }
    fn with(&self, v: V, f: F) -> Option<Ctx> { self.with_many(&[(v, f)]) }
    fn with_many(&self, subs: &[(V, F)]) -> Option<Ctx> {
        let mut c = self.clone();
        let mut m: HashMap<V, F> = (*self.subst).clone();
        // apply to existing right-hand sides
        let tmp = Ctx { subst: Rc::new(subs.iter().cloned().collect()), sphere: Rc::new(vec![]), memo: Rc::new(RefCell::new(HashMap::new())), ..Ctx::new() };
        for (_, r) in m.iter_mut() { *r = tmp.norm(*r); }
        for (v, f) in subs { m.insert(*v, *f); }
        c.subst = Rc::new(m);
        Some(c)
    }
    /// solve p = 0 exactly; Ok(list of contexts, possibly empty) or Err if no rule applies
    pub fn solve_zero(&self, p: F) -> Result<Vec<Ctx>, String> {
        let p = self.norm(p);
        if let Some(c) = as_const(p) { return Ok(if c.abs() <= 1e-9 { vec![self.clone()] } else { vec![] }); }
        let (l, h) = bounds(p);
        if l > 1e-9 || h < -1e-9 { return Ok(vec![]); }
        let finish = |v: Vec<Option<Ctx>>| -> Vec<Ctx> {
            let mut o = vec![];
            for c in v { if let Some(mut c) = c { if c.rebuild() { o.push(c); } } }
            o
        };
        // common factor
        let monos: Vec<Mono> = poly(p).iter().map(|x| fa().monos[x.0 as usize].clone()).collect();
        let mut common = monos[0].clone();
        for m in &monos[1..] {
            common = common.iter().filter_map(|(v, e)| m.iter().find(|x| x.0 == *v).map(|x| (*v, (*e).min(x.1)))).collect();
        }
        if !common.is_empty() && (monos.len() > 1 || common.len() > 1 || common[0].1 > 1) {
            let q = intern(poly(p).iter().map(|(m, c)| (mono_id(mono_div(&fa().monos[*m as usize].clone(), &common).unwrap()), *c)).collect());
            let mut out = vec![];
            let mut cands = vec![];
            for (v, _) in &common { if !matches!(kind(*v), VK::Inv(_)) { cands.push(var(*v)); } }
            if as_const(q).is_none() { cands.push(q); }
            for x in cands {
                if let term::N::RLit(id) = term::node(lit(LK::Zero, x)) { if self.known.get(id) == Some(&false) { continue; } }
                out.extend(self.solve_zero(x)?);
            }
            return Ok(out);
        }
        // linear in the angles (queued rotation sums), constant coefficients
        let vars: Vec<V> = { let mut s: Vec<V> = monos.iter().flat_map(|m| m.iter().map(|x| x.0)).collect(); s.sort(); s.dedup(); s };
        let linear_in = |v: V| monos.iter().all(|m| m.iter().all(|x| x.0 != v || (x.1 == 1 && m.len() == 1)));
        for v in vars.iter().rev() {
            if matches!(kind(*v), VK::Angle | VK::Free(..)) && linear_in(*v) && vars.iter().all(|w| matches!(kind(*w), VK::Angle | VK::AngleOf(..) | VK::Free(..))) {
                let k = poly(p).iter().find(|(m, _)| fa().monos[*m as usize] == vec![(*v, 1)]).unwrap().1;
                let r = scale(sub(p, scale(var(*v), k)), -1.0 / k);
                if let VK::Free(lo, hi) = kind(*v) { if let Some(c) = as_const(r) { if c < *lo || c > *hi { return Ok(vec![]); } } }
                return Ok(finish(vec![self.with(*v, r)]));
            }
        }
        if let [v] = vars[..] { if let VK::Sqrt(q) | VK::Pos(q) = kind(v) { if monos.len() == 1 { if let VK::Sqrt(_) = kind(v) { return self.solve_zero(*q); } } } }
        // sphere amplitudes, homogeneous linear
        let sph: HashSet<V> = self.sphere.iter().cloned().collect();
        let avars: Vec<V> = vars.iter().filter(|v| sph.contains(v)).cloned().collect();
        if !avars.is_empty() && monos.iter().all(|m| m.iter().filter(|x| sph.contains(&x.0)).map(|x| x.1).sum::<u32>() == 1) {
            let coef: Vec<F> = avars.iter().map(|v| intern(poly(p).iter().filter(|(m, _)| fa().monos[*m as usize].iter().any(|x| x.0 == *v)).map(|(m, c)| (mono_id(mono_div(&fa().monos[*m as usize].clone(), &vec![(*v, 1)]).unwrap()), *c)).collect())).collect();
            let consts: Vec<Option<f64>> = coef.iter().map(|c| as_const(*c)).collect();
            if consts.iter().all(|c| c.is_some()) {
                let q: Vec<f64> = consts.iter().map(|c| c.unwrap()).collect();
                return Ok(finish(vec![self.orth(&avars, &q)]));
            }
            if avars.len() == 2 {
                let n2 = self.norm(add(mul(coef[0], coef[0]), mul(coef[1], coef[1])));
                if let Some(k2) = as_const(n2) {
                    if k2 > 1e-6 {
                        let k = k2.sqrt();
                        let t = new_var(VK::Amp, "t");
                        let subs = [(avars[0], scale(mul(coef[1], var(t)), -1.0 / k)), (avars[1], scale(mul(coef[0], var(t)), 1.0 / k))];
                        let mut c = self.with_many(&subs).unwrap();
                        let mut s: Vec<V> = self.sphere.iter().filter(|v| !avars.contains(v)).cloned().collect();
                        s.push(t);
                        c.sphere = Rc::new(s);
                        return Ok(finish(vec![Some(c)]));
                    }
                }
            }
        }
        // trigonometric pair
        let mut angles: Vec<V> = vec![];
        for v in &vars { if let VK::CosH(a) | VK::SinH(a) = kind(*v) { if !angles.contains(a) { angles.push(*a); } } }
        for a in angles.iter().rev() {
            let (cv, sv) = (cosh(*a), sinh(*a));
            let mut ca = vec![];
            let mut sb = vec![];
            let mut rest = vec![];
            let mut lin_ok = true;
            for (m, k) in poly(p).iter() {
                let mo = fa().monos[*m as usize].clone();
                let e: u32 = mo.iter().filter(|x| x.0 == cv || x.0 == sv).map(|x| x.1).sum();
                if e == 0 { rest.push((*m, *k)); }
                else if e == 1 {
                    if let Some(q) = mono_div(&mo, &vec![(cv, 1)]) { ca.push((mono_id(q), *k)); } else { sb.push((mono_id(mono_div(&mo, &vec![(sv, 1)]).unwrap()), *k)); }
                } else { lin_ok = false; }
            }
            if !lin_ok {
                // single-angle quadratic with constant coefficients: a root search
                if vars.iter().all(|v| *v == cv || *v == sv) { return Ok(finish(self.trig_roots(p, *a, cv, sv))); }
                continue;
            }
            let (ca, sb, rest) = (intern(ca), intern(sb), intern(rest));
            let n2 = self.norm(add(mul(ca, ca), mul(sb, sb)));
            if let (Some(r2), Some(cc)) = (as_const(n2), as_const(rest)) {
                if r2 > 1e-9 {
                    let d2 = r2 - cc * cc;
                    if d2 < -1e-9 { return Ok(vec![]); }
                    let d = if d2 < 1e-9 { 0.0 } else { d2.sqrt() };
                    let mut out = vec![];
                    let signs: &[f64] = if d == 0.0 { &[1.0] } else { &[1.0, -1.0] };
                    for sg in signs {
                        let c = add(scale(ca, -cc / r2), scale(sb, -sg * d / r2));
                        let s = add(scale(sb, -cc / r2), scale(ca, sg * d / r2));
                        out.push(self.with_many(&[(*a, angle_of(c, s)), (cv, c), (sv, s)]));
                    }
                    return Ok(finish(out));
                }
            }
        }
        Err(show(p))
    }
    fn trig_roots(&self, p: F, a: V, cv: V, sv: V) -> Vec<Option<Ctx>> {
        let f = |h: f64| -> f64 { let m: HashMap<V, f64> = [(cv, h.cos()), (sv, h.sin())].into_iter().collect(); let s: Valn = Rc::new(RefCell::new(m)); self.ev(p, &s) };
        let n = 4000;
        let mut roots: Vec<f64> = vec![];
        let step = 2.0 * std::f64::consts::PI / n as f64;
        let off = 0.000123;
        for i in 0..n {
            let (mut x, mut y) = (off + i as f64 * step, off + (i + 1) as f64 * step);
            let (fx, fy) = (f(x), f(y));
            if fx * fy < 0.0 {
                for _ in 0..80 { let m = (x + y) / 2.0; if f(m) * f(x) <= 0.0 { y = m; } else { x = m; } }
                roots.push((x + y) / 2.0);
            } else {
                // double roots: minimise |f|
                let fm = f((x + y) / 2.0).abs();
                if fm < 1e-5 && fm <= fx.abs() && fm <= fy.abs() {
                    let (mut l, mut h) = (x, y);
                    for _ in 0..100 { let (m1, m2) = (l + (h - l) / 3.0, h - (h - l) / 3.0); if f(m1).abs() < f(m2).abs() { h = m2; } else { l = m1; } }
                    let m = (l + h) / 2.0;
                    if f(m).abs() < 1e-12 { roots.push(m); }
                }
            }
        }
        roots.dedup_by(|x, y| (*x - *y).abs() < 1e-6);
        roots.iter().map(|h| self.with_many(&[(a, angle_of(cst(h.cos()), cst(h.sin()))), (cv, cst(h.cos())), (sv, cst(h.sin()))])).collect()
    }
    fn orth(&self, xs: &[V], q: &[f64]) -> Option<Ctx> {
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        let q: Vec<f64> = q.iter().map(|x| x / n).collect();
        // orthonormal basis of the complement (Gram-Schmidt over unit vectors)
        let mut basis: Vec<Vec<f64>> = vec![q.clone()];
        let mut order: Vec<usize> = (0..xs.len()).collect();
        order.sort_by(|a, b| q[*a].abs().partial_cmp(&q[*b].abs()).unwrap());
        for i in order {
            if basis.len() == xs.len() { break; }
            let mut e = vec![0.0; xs.len()];
            e[i] = 1.0;
            for b in &basis { let d: f64 = b.iter().zip(&e).map(|(x, y)| x * y).sum(); for k in 0..e.len() { e[k] -= d * b[k]; } }
            let n = e.iter().map(|x| x * x).sum::<f64>().sqrt();
            if n < 1e-9 { continue; }
            for x in e.iter_mut() { *x /= n; if x.abs() < 1e-14 { *x = 0.0; } }
            basis.push(e);
        }
        let ts: Vec<V> = (1..basis.len()).map(|_| new_var(VK::Amp, "t")).collect();
        let mut subs = vec![];
        for (i, x) in xs.iter().enumerate() {
            let mut f = cst(0.0);
            for (j, t) in ts.iter().enumerate() { f = add(f, scale(var(*t), basis[j + 1][i])); }
            subs.push((*x, f));
        }
        let mut s: Vec<V> = self.sphere.iter().filter(|v| !xs.contains(v)).cloned().collect();
        s.extend(ts);
        if s.is_empty() { return None; }
        let mut c = self.with_many(&subs)?;
        c.sphere = Rc::new(s);
        Some(c)
    }
    pub fn add_sphere(&mut self, vs: Vec<V>) {
        assert!(self.sphere.is_empty(), "only one amplitude group per path");
        self.base.extend(vs.iter());
        self.sphere = Rc::new(vs);
        self.memo = Rc::new(RefCell::new(HashMap::new()));
        self.samples.clear();
    }
}
pub fn angle_of(c: F, s: F) -> F {
    if let (Some(x), Some(y)) = (as_const(c), as_const(s)) { return cst(2.0 * y.atan2(x)); }
    var(atom(format!("angle#{}#{}", c, s), VK::AngleOf(c, s)))
}
pub fn eval_uf(n: &str, a: &[f64]) -> f64 {
    match n {
        "log" => a[0].ln(), "log2" => a[0].log2(), "log10" => a[0].log10(), "exp" => a[0].exp(), "tan" => a[0].tan(), "asin" => a[0].asin(), "acos" => a[0].acos(), "atan" => a[0].atan(),
        "sinh" => a[0].sinh(), "cosh" => a[0].cosh(), "tanh" => a[0].tanh(), "atan2" => a[0].atan2(a[1]), "pow" => a[0].powf(a[1]), "hypot" => a[0].hypot(a[1]),
        _ => f64::NAN,
    }
}
pub fn show(f: F) -> String {
    let p = poly(f);
    if p.is_empty() { return "0".into(); }
    let mut s = String::new();
    for (i, (m, c)) in p.iter().enumerate() {
        if i > 0 { s += " + "; }
        if i > 12 { s += "..."; break; }
        s += &format!("{:.6}", c);
        for (v, e) in &fa().monos[*m as usize] { s += &format!("*{}{}", fa().vars[*v as usize].name, if *e > 1 { format!("^{}", e) } else { String::new() }); }
    }
    s
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn gauss(&mut self) -> f64 { let (u, v) = (self.f().max(1e-12), self.f()); (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos() }
}

/// SMT-LIB (reals) for a set of polynomials: declarations and defining constraints of the atoms used.
pub struct Smt { pub decls: String, pub cons: String, seen: HashSet<V> }
impl Smt {
    pub fn new() -> Smt { Smt { decls: String::new(), cons: String::new(), seen: HashSet::new() } }
    fn need(&mut self, v: V) {
        if !self.seen.insert(v) { return; }
        self.decls += &format!("(declare-const r{} Real)\n", v);
        match kind(v).clone() {
            VK::Free(l, h) => { if l.is_finite() { self.cons += &format!("(assert (>= r{} {}))\n", v, rat(l)); } if h.is_finite() { self.cons += &format!("(assert (<= r{} {}))\n", v, rat(h)); } }
            VK::CosH(a) | VK::SinH(a) => { let (c, s) = (cosh(a), sinh(a)); self.need(c); self.need(s); if matches!(kind(v), VK::CosH(_)) { self.cons += &format!("(assert (= (+ (* r{c} r{c}) (* r{s} r{s})) 1.0))\n"); } }
            VK::CosOf(p) | VK::SinOf(p) => { let (c, s) = general_cossin(p); let (c, s) = (single_var(c).unwrap().0, single_var(s).unwrap().0); self.need(c); self.need(s); if matches!(kind(v), VK::CosOf(_)) { self.cons += &format!("(assert (= (+ (* r{c} r{c}) (* r{s} r{s})) 1.0))\n"); } }
            VK::Sqrt(p) => { let e = self.poly(p); self.cons += &format!("(assert (and (>= r{v} 0.0) (= (* r{v} r{v}) {e})))\n"); }
            VK::Inv(p) => { let e = self.poly(p); self.cons += &format!("(assert (= (* r{v} {e}) 1.0))\n"); }
            VK::Pos(p) => { let e = self.poly(p); self.cons += &format!("(assert (= r{v} (ite (>= {e} 0.0) {e} 0.0)))\n"); }
            VK::Amp => { self.cons += &format!("(assert (and (>= r{v} (- 1.0)) (<= r{v} 1.0)))\n"); }
            _ => {}
        }
    }
    pub fn poly(&mut self, f: F) -> String {
        let p = poly(f);
        if p.is_empty() { return "0.0".into(); }
        let mut ts = vec![];
        for (m, c) in p.iter() {
            let mut fs = vec![rat(*c)];
            for (v, e) in fa().monos[*m as usize].clone() { self.need(v); for _ in 0..e { fs.push(format!("r{}", v)); } }
            ts.push(if fs.len() == 1 { fs[0].clone() } else { format!("(* {})", fs.join(" ")) });
        }
        if ts.len() == 1 { ts[0].clone() } else { format!("(+ {})", ts.join(" ")) }
    }
    /// what the path has fixed about the atoms used so far
    pub fn fixed(&mut self, c: &Ctx) -> String {
        let mut s = String::new();
        let mut done: HashSet<V> = HashSet::new();
        loop {
            let Some(v) = self.seen.iter().copied().find(|v| !done.contains(v)) else { break };
            done.insert(v);
            let n = c.nv(v);
            if n != var(v) { let e = self.poly(n); s += &format!("(assert (= r{} {}))\n", v, e); }
        }
        s
    }
    pub fn lit(&mut self, l: u32, b: bool) -> String {
        let (k, f) = fa().lits[l as usize];
        let e = self.poly(f);
        let s = match k { LK::Zero => format!("(= {} 0.0)", e), LK::Le => format!("(<= {} 0.0)", e), LK::Lt => format!("(< {} 0.0)", e) };
        if b { s } else { format!("(not {})", s) }
    }
    pub fn ctx(&mut self, c: &Ctx) -> String {
        let mut s = String::new();
        for (l, b) in &c.lits { let x = self.lit(*l, *b); s += &format!("(assert {})\n", x); }
        if c.sphere.iter().any(|v| self.seen.contains(v)) {
            let mut ts = vec![];
            for v in c.sphere.iter() { self.need(*v); ts.push(format!("(* r{v} r{v})")); }
            s += &format!("(assert (= (+ 0.0 {}) 1.0))\n", ts.join(" "));
        }
        s
    }
}
pub fn rat(c: f64) -> String {
    // exact decimal expansion is long: write as integer ratio of a power of two
    if c == c.trunc() && c.abs() < 1e15 { return if c < 0.0 { format!("(- {:.1})", -c) } else { format!("{:.1}", c) }; }
    let b = c.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32 - 1075;
    let m = (b & ((1 << 52) - 1)) | (1 << 52);
    let s = if e >= 0 { format!("{}.0", (m as f64) * 2f64.powi(e)) } else if e > -120 { format!("(/ {}.0 {}.0)", m, 1u128 << (-e) as u32) } else { "0.0".into() };
    if c < 0.0 { format!("(- {})", s) } else { s }
}
