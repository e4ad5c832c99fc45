//! Symbolic execution of the IR.
use crate::fl::{self, Ctx, Rng, F, LK, VK};
use crate::ir::*;
use crate::mem::*;
use crate::solver::{RealSolver, Solver, R};
use crate::term::{self, BOp, COp, FOp, N, T};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct LF { pub f: Func, pub consts: Vec<Val>, pub file: String, pub in_repo: bool }

#[derive(Debug)]
pub enum Stop {
    Need(T),
    Conc(T),
    Panic(String),
    Mem(String),
    Unsup(String),
    Viol(String, Option<Ctx>, Option<HashMap<u32, u128>>),
    Undecided(String),
    Cut(String),
    Choice(u64),
    Assume,
    Done,
}
impl std::fmt::Debug for Ctx { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "ctx") } }
pub type X<A> = Result<A, Stop>;

#[derive(Clone)]
pub struct Frame { pub lf: &'static LF, pub blk: u32, pub ip: u32, pub regs: Vec<Val>, pub stack_base: usize, pub dst: u32, pub normal: Option<u32> }

#[derive(Clone, Debug)]
pub enum Input { Choice(u64), Bits(T), Real(F) }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub path: Vec<T>,
    pub known: Rc<HashMap<T, bool>>,
    pub vals: Rc<HashMap<T, u128>>,
    pub model: Option<Rc<HashMap<u32, u128>>>,
    pub fx: Ctx,
    pub inputs: Vec<Input>,
    pub nsym: HashMap<String, u32>,
    pub panic_mode: u32,
    pub panic_id: String,
    pub mark: u32,
    pub mark_live: i64,
    pub steps: u64,
    pub choice_key: u64,
    pub choices: u32,
    pub forced: Vec<u64>,
    /// bytes written to standard output while it is captured; bytes of standard input not read yet
    pub stdout: Option<Vec<Val>>,
    pub stdin: Rc<Vec<Val>>, pub stdin_at: usize,
    pub rng_calls: u32,
    pub depth_forks: u32,
    pub unwitnessed: bool,
    pub draws: HashMap<(T, u32), F>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub done: u64, pub panics: u64, pub infeasible: u64, pub forks: u64, pub steps: u64, pub checks: u64, pub checks_solver: u64, pub checks_real: u64, pub checks_real_const: u64,
    pub cuts: BTreeMap<String, u64>, pub undecided: BTreeMap<String, u64>, pub thin: u64, pub unsup: BTreeMap<String, u64>,
    pub funcs: BTreeSet<String>, pub lines: HashSet<(u32, usize)>, pub samples: Vec<String>, pub check_ids: BTreeMap<String, u64>, pub dropped: u64, pub conc: u64, pub max_inputs: usize, pub traces: Vec<(String, bool, bool)>, pub probes: Vec<(String, bool)>,
}

pub struct Violation { pub id: String, pub replay: String, pub detail: String }

type Prim = fn(&mut Engine, &mut State, &[(Ty, Val)], &Ty) -> X<Val>;
#[derive(Clone)]
pub enum Tgt { Fn(&'static LF), Prim(Prim), Panic, Missing }
pub struct CalleeInfo { pub name: String, pub tgt: Option<Tgt> }

pub struct Engine {
    pub m: Module,
    pub callees: Vec<CalleeInfo>,
    cidx: HashMap<String, u32>,
    fns: HashMap<String, &'static LF>,
    gaddr: HashMap<String, u64>,
    faddr: HashMap<String, u64>,
    fbyaddr: Vec<String>,
    pub base: Mem,
    pub sol: Solver,
    pub rsol: RealSolver,
    /// re-decides assertions that the polynomial normal form has decided, and how many it was given / agreed / did not answer / contradicted
    csol: Option<RealSolver>, pub confirmed: [u64; 4], pub csecs: f64, born: std::time::Instant,
    pub st: Stats,
    pub rng: Rng,
    pub viols: Vec<Violation>,
    pub shard: (u64, u64),
    pub quick: bool,
    pub max_steps: u64,
    pub deadline: Instant,
    pub thin_budget: i32,
    pub trace: bool,
    pub files: HashMap<u32, String>,
    pub prims: HashMap<&'static str, Prim>,
    pub verdict_log: Vec<String>,
    pub max_viol: usize,
    pub goals: BTreeMap<(String, Vec<u64>), bool>,
    pub prof: HashMap<String, u64>,
    pub traces: usize,
}

fn isz(ty: &Ty) -> u32 { match ty { Ty::Int(w) => (*w + 7) / 8, t => t.size() as u32 } }
pub fn tyw(ty: &Ty) -> u32 { match ty { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, t => t.size() as u32 * 8 } }

pub enum FV { C(f64), P(F), T(T) }
pub fn fval(v: &Val, cx: &Ctx) -> FV {
    match v {
        Val::C(b) => FV::C(f64::from_bits(*b)),
        Val::F(f) => { let g = cx.norm(*f); match fl::as_const(g) { Some(c) => FV::C(c), None => FV::P(g) } }
        Val::T(t) => match term::node(*t) { N::FBits(f) => fval(&Val::F(*f), cx), N::K(k) => FV::C(f64::from_bits(*k as u64)), _ => FV::T(*t) },
        _ => FV::C(f64::from_bits(0)),
    }
}
fn fv_out(f: F) -> Val { match fl::as_const(f) { Some(c) => Val::C(c.to_bits()), None => Val::F(f) } }
fn t_of(v: &FV) -> Option<T> { match v { FV::C(c) => Some(term::k(c.to_bits() as u128, 64)), FV::T(t) => Some(*t), FV::P(_) => None } }
fn p_of(v: &FV) -> F { match v { FV::C(c) => fl::cst(*c), FV::P(p) => *p, FV::T(_) => unreachable!() } }

pub fn funary(op: FOp, a: &Val, cx: &Ctx) -> X<Val> {
    match fval(a, cx) {
        FV::C(c) => Ok(Val::C(term::eval_fp(op, &[c.to_bits() as u128], 64, 64).unwrap() as u64)),
        FV::T(t) => Ok(Val::of(match op { FOp::Abs => term::bin(BOp::And, t, term::k(0x7fff_ffff_ffff_ffff, 64)), FOp::Neg => term::bin(BOp::Xor, t, term::k(1 << 63, 64)), _ => term::fp(op, vec![t], 64) })),
        FV::P(p) => Ok(match op { FOp::Abs => fv_out(fl::abs(p)), FOp::Neg => fv_out(fl::neg(p)), FOp::Sqrt => fv_out(fl::sqrt(p)), _ => return Err(Stop::Unsup(format!("{:?} of a symbolic real", op))) }),
    }
}
pub fn fbin(op: FOp, a: &Val, b: &Val, cx: &Ctx) -> X<Val> {
    let (x, y) = (fval(a, cx), fval(b, cx));
    if let (FV::C(p), FV::C(q)) = (&x, &y) { return Ok(Val::C(term::eval_fp(op, &[p.to_bits() as u128, q.to_bits() as u128], 64, 64).unwrap() as u64)); }
    if let (Some(p), Some(q)) = (t_of(&x), t_of(&y)) { return Ok(Val::of(term::fp(op, vec![p, q], 64))); }
    if matches!(x, FV::T(_)) || matches!(y, FV::T(_)) { return Err(Stop::Unsup("mixed bit-precise and real floats".into())); }
    for (v, first) in [(&x, true), (&y, false)] {
        if let FV::C(c) = v {
            if !c.is_finite() {
                if c.is_nan() { return Ok(match op { FOp::Min | FOp::Max => if first { b.clone() } else { a.clone() }, _ => Val::C(f64::NAN.to_bits()) }); }
                return Ok(match op {
                    FOp::Add => Val::C(c.to_bits()),
                    FOp::Sub => Val::C(if first { *c } else { -*c }.to_bits()),
                    FOp::Div if !first => Val::C(0),
                    FOp::Max => if *c > 0.0 { Val::C(c.to_bits()) } else if first { b.clone() } else { a.clone() },
                    FOp::Min => if *c < 0.0 { Val::C(c.to_bits()) } else if first { b.clone() } else { a.clone() },
                    _ => return Err(Stop::Unsup("product of a symbolic real with infinity".into())),
                });
            }
        }
    }
    let (p, q) = (p_of(&x), p_of(&y));
    let r = match op {
        FOp::Add => fl::add(p, q),
        FOp::Sub => fl::sub(p, q),
        FOp::Mul => fl::mul(p, q),
        FOp::Div => { if fl::as_const(q) == Some(0.0) { return Err(Stop::Unsup("division of a symbolic real by zero".into())); } fl::div(p, q) }
        FOp::Max => fl::max(p, q),
        FOp::Min => fl::min(p, q),
        _ => return Err(Stop::Unsup(format!("{:?}", op))),
    };
    Ok(fv_out(cx.norm(r)))
}
pub fn fcmp(p: FPred, a: &Val, b: &Val, cx: &Ctx) -> X<Val> {
    let (x, y) = (fval(a, cx), fval(b, cx));
    if let (FV::C(p1), FV::C(q1)) = (&x, &y) { return Ok(Val::C(fcmp_c(p, *p1, *q1) as u64)); }
    if let (Some(s), Some(t)) = (t_of(&x), t_of(&y)) {
        let un = term::or(term::fp(FOp::IsNan, vec![s], 1), term::fp(FOp::IsNan, vec![t], 1));
        let lt = |a, b| term::fp(FOp::Lt, vec![a, b], 1);
        let le = |a, b| term::fp(FOp::Le, vec![a, b], 1);
        let e = term::fp(FOp::Eq, vec![s, t], 1);
        return Ok(Val::of(match p {
            FPred::False => term::ff(), FPred::True => term::tt(), FPred::Oeq => e, FPred::Ogt => lt(t, s), FPred::Oge => le(t, s), FPred::Olt => lt(s, t), FPred::Ole => le(s, t),
            FPred::One => term::and(term::not(e), term::not(un)), FPred::Ord => term::not(un), FPred::Ueq => term::or(e, un), FPred::Ugt => term::or(lt(t, s), un), FPred::Uge => term::or(le(t, s), un),
            FPred::Ult => term::or(lt(s, t), un), FPred::Ule => term::or(le(s, t), un), FPred::Une => term::not(e), FPred::Uno => un,
        }));
    }
    if matches!(x, FV::T(_)) || matches!(y, FV::T(_)) { return Err(Stop::Unsup("mixed bit-precise and real floats".into())); }
    if let FV::C(c) = x { if !c.is_finite() { return Ok(Val::C(fcmp_c(p, c, 0.0) as u64)); } }
    if let FV::C(c) = y { if !c.is_finite() { return Ok(Val::C(fcmp_c(p, 0.0, c) as u64)); } }
    let (s, t) = (p_of(&x), p_of(&y));
    Ok(Val::of(match p {
        FPred::False | FPred::Uno => term::ff(),
        FPred::True | FPred::Ord => term::tt(),
        FPred::Oeq | FPred::Ueq => fl::equal(s, t),
        FPred::One | FPred::Une => term::not(fl::equal(s, t)),
        FPred::Olt | FPred::Ult => fl::less(s, t, true),
        FPred::Ole | FPred::Ule => fl::less(s, t, false),
        FPred::Ogt | FPred::Ugt => fl::less(t, s, true),
        FPred::Oge | FPred::Uge => fl::less(t, s, false),
    }))
}
fn fcmp_c(p: FPred, a: f64, b: f64) -> bool {
    let u = a.is_nan() || b.is_nan();
    match p {
        FPred::False => false, FPred::True => true, FPred::Oeq => a == b, FPred::Ogt => a > b, FPred::Oge => a >= b, FPred::Olt => a < b, FPred::Ole => a <= b, FPred::One => !u && a != b, FPred::Ord => !u,
        FPred::Ueq => u || a == b, FPred::Ugt => u || a > b, FPred::Uge => u || a >= b, FPred::Ult => u || a < b, FPred::Ule => u || a <= b, FPred::Une => a != b, FPred::Uno => u,
    }
}

fn bop(op: BinOp) -> BOp { match op { BinOp::Add => BOp::Add, BinOp::Sub => BOp::Sub, BinOp::Mul => BOp::Mul, BinOp::UDiv => BOp::UDiv, BinOp::SDiv => BOp::SDiv, BinOp::URem => BOp::URem, BinOp::SRem => BOp::SRem, BinOp::Shl => BOp::Shl, BinOp::LShr => BOp::LShr, BinOp::AShr => BOp::AShr, BinOp::And => BOp::And, BinOp::Or => BOp::Or, BinOp::Xor => BOp::Xor, _ => unreachable!() } }

pub fn ibin(op: BinOp, w: u32, a: &Val, b: &Val) -> X<Val> {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
            let (x, y) = (*x, *y);
            let r = match op {
                BinOp::Add => x.wrapping_add(y), BinOp::Sub => x.wrapping_sub(y), BinOp::Mul => x.wrapping_mul(y), BinOp::And => x & y, BinOp::Or => x | y, BinOp::Xor => x ^ y,
                BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                _ => return match term::fold_bin(bop(op), x as u128, y as u128, w) { Some(r) => Ok(Val::C(r as u64)), None => Err(Stop::Unsup("division by zero".into())) },
            };
            return Ok(Val::C(r & m));
        }
    }
    match (a, b) {
        (Val::U, _) | (_, Val::U) if !matches!(op, BinOp::And | BinOp::Mul) => { }
        _ => {}
    }
    if w > 64 {
        let g = |v: &Val| match v { Val::W(x) => Some(*x), Val::C(x) => Some(*x as u128), Val::U => Some(0), _ => None };
        if let (Some(x), Some(y)) = (g(a), g(b)) { return match term::fold_bin(bop(op), x, y, w) { Some(r) => Ok(Val::W(r)), None => Err(Stop::Unsup("division by zero".into())) }; }
    }
    let (ta, tb) = (a.term(w), b.term(w));
    if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) && term::as_k(tb) == Some(0) { return Err(Stop::Unsup("division by zero".into())); }
    Ok(Val::of(term::bin(bop(op), ta, tb)))
}
pub fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
    if let (Val::C(x), Val::C(y)) = (a, b) {
        if w <= 64 {
            let s = 64 - w;
            let (sx, sy) = (((*x << s) as i64), ((*y << s) as i64));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Val::C(r as u64);
        }
    }
    let (x, y) = (a.term(w), b.term(w));
    Val::of(match p {
        Pred::Eq => term::eq(x, y), Pred::Ne => term::not(term::eq(x, y)), Pred::Ugt => term::cmp(COp::Ult, y, x), Pred::Uge => term::cmp(COp::Ule, y, x), Pred::Ult => term::cmp(COp::Ult, x, y), Pred::Ule => term::cmp(COp::Ule, x, y),
        Pred::Sgt => term::cmp(COp::Slt, y, x), Pred::Sge => term::cmp(COp::Sle, y, x), Pred::Slt => term::cmp(COp::Slt, x, y), Pred::Sle => term::cmp(COp::Sle, x, y),
    })
}

impl State {
    pub fn rewrite(&self, t: T) -> T {
        if self.vals.is_empty() && self.known.is_empty() { return t; }
        let (vals, known) = (self.vals.clone(), self.known.clone());
        let mut t = t;
        // a rewritten term can itself be a known one
        for _ in 0..8 {
            let mut memo = HashMap::new();
            let n = term::rewrite(t, &|x| { if let Some(v) = vals.get(&x) { return Some(term::k(*v, term::width(x))); } if term::width(x) == 1 { if let Some(b) = known.get(&x) { return Some(term::k(*b as u128, 1)); } } None }, &mut memo);
            if n == t || term::as_k(n).is_some() { return n; }
            t = n;
        }
        t
    }
    /// replace the real-valued parts that the path decides
    fn reals(&self, t: T) -> X<T> {
        if !term::has_real(t) { return Ok(t); }
        let mut lv = vec![];
        term::leaves(t, &mut lv, &mut HashSet::new());
        let mut map: HashMap<T, T> = HashMap::new();
        let mut need = None;
        for l in lv {
            match term::node(l) {
                N::RLit(id) => {
                    let (k, f) = fl::fa().lits[*id as usize];
                    let g = self.fx.norm(f);
                    let n = if g == f { l } else { fl::lit(k, g) };
                    match term::node(n) {
                        N::K(_) => { map.insert(l, n); }
                        N::RLit(i2) => { match self.fx.known.get(i2) { Some(b) => { map.insert(l, term::k(*b as u128, 1)); } None => { if need.is_none() { need = Some(n); } if n != l { map.insert(l, n); } } } }
                        _ => { map.insert(l, n); }
                    }
                }
                N::FBits(f) => { let g = self.fx.norm(*f); if g != *f { map.insert(l, match fl::as_const(g) { Some(c) => term::k(c.to_bits() as u128, 64), None => term::fbits(g) }); } }
                _ => {}
            }
        }
        let r = if map.is_empty() { t } else { let mut memo = HashMap::new(); term::rewrite(t, &|x| map.get(&x).copied(), &mut memo) };
        if term::as_k(r).is_some() { return Ok(r); }
        if let Some(n) = need {
            // is the literal still relevant?
            let mut lv = vec![];
            term::leaves(r, &mut lv, &mut HashSet::new());
            if lv.contains(&n) { return Err(Stop::Need(n)); }
            for l in lv { if let N::RLit(id) = term::node(l) { if !self.fx.known.contains_key(id) { return Err(Stop::Need(l)); } } }
        }
        Ok(r)
    }
    pub fn decide_t(&self, t: T) -> X<bool> {
        let t = self.reals(t)?;
        let t = self.rewrite(t);
        if let Some(v) = term::as_k(t) { return Ok(v == 1); }
        Err(Stop::Need(t))
    }
    pub fn decide(&self, v: &Val) -> X<bool> {
        match v {
            Val::C(x) => Ok(*x & 1 == 1),
            Val::T(t) => self.decide_t(*t),
            Val::U => Ok(false),
            _ => Err(Stop::Unsup("branch on a strange value".into())),
        }
    }
    pub fn conc(&self, v: &Val, w: u32) -> X<u64> {
        match v {
            Val::C(x) => Ok(*x),
            Val::W(x) => Ok(*x as u64),
            Val::U => Ok(0),
            Val::T(t) => {
                let _ = w;
                let t = self.reals(*t)?;
                let t = self.rewrite(t);
                if let Some(k) = term::as_k(t) { return Ok(k as u64); }
                Err(Stop::Conc(t))
            }
            Val::F(f) => match fl::as_const(self.fx.norm(*f)) { Some(c) => Ok(c.to_bits()), None => Err(Stop::Unsup("a symbolic real used as an integer".into())) },
            Val::V(_) => Err(Stop::Unsup("vector used as scalar".into())),
        }
    }
    pub fn load_ty(&self, ty: &Ty, a: u64) -> X<Val> {
        let e = |m: String| Stop::Mem(m);
        match ty {
            Ty::Vec(n, t) | Ty::Arr(n, t) => {
                if **t == Ty::Int(1) { let v = self.mem.load(a, ((*n + 7) / 8) as u32).map_err(e)?; let b = self.conc(&v, 64)?; return Ok(Val::V(Rc::new((0..*n).map(|i| Val::C((b >> i) & 1)).collect()))); }
                let s = t.size();
                let mut v = vec![];
                for i in 0..*n { v.push(self.load_ty(t, a + i * s)?); }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Struct(f, _) => {
                let mut v = vec![];
                for i in 0..f.len() { let (o, t) = ty.field_off(i); v.push(self.load_ty(&t, a + o)?); }
                Ok(Val::V(Rc::new(v)))
            }
            Ty::Int(w) => {
                let v = self.mem.load(a, isz(ty)).map_err(e)?;
                Ok(match v {
                    Val::C(x) if *w < 64 => Val::C(x & ((1u64 << w) - 1)),
                    Val::F(f) => Val::T(term::fbits(f)),
                    Val::T(t) => if term::width(t) > *w { Val::of(term::extract(t, 0, *w)) } else { Val::T(t) },
                    Val::C(x) if *w > 64 => Val::W(x as u128),
                    x => x,
                })
            }
            Ty::F64 => {
                let v = self.mem.load(a, 8).map_err(e)?;
                Ok(match v { Val::T(t) => match term::node(t) { N::FBits(f) => Val::F(*f), _ => Val::T(t) }, x => x })
            }
            _ => self.mem.load(a, ty.size() as u32).map_err(e),
        }
    }
    pub fn store_ty(&mut self, ty: &Ty, a: u64, v: &Val) -> X<()> {
        match (ty, v) {
            (Ty::Vec(n, t) | Ty::Arr(n, t), Val::V(vs)) => {
                if **t == Ty::Int(1) { let mut b = 0u64; for i in 0..*n as usize { b |= (self.conc(&vs[i], 1)? & 1) << i; } return self.mem.store(a, ((*n + 7) / 8) as u32, &Val::C(b)).map_err(Stop::Mem); }
                let s = t.size();
                for i in 0..*n { self.store_ty(t, a + i * s, &vs[i as usize])?; }
                Ok(())
            }
            (Ty::Struct(f, _), Val::V(vs)) => { for i in 0..f.len() { let (o, t) = ty.field_off(i); self.store_ty(&t, a + o, &vs[i])?; } Ok(()) }
            (Ty::Int(1), _) | (_, _) => self.mem.store(a, isz(ty), v).map_err(Stop::Mem),
        }
    }
    pub fn assume_bv(&mut self, t: T, b: bool) {
        let c = if b { t } else { term::not(t) };
        self.path.push(c);
        // split conjunctions into known facts
        let mut todo = vec![(t, b)];
        while let Some((t, b)) = todo.pop() {
            Rc::make_mut(&mut self.known).insert(t, b);
            match term::node(t) {
                N::Bin(BOp::And, x, y) if b => { todo.push((*x, true)); todo.push((*y, true)); }
                N::Bin(BOp::Or, x, y) if !b => { todo.push((*x, false)); todo.push((*y, false)); }
                N::Bin(BOp::Xor, x, y) if term::as_k(*y) == Some(1) => todo.push((*x, !b)),
                N::Cmp(COp::Eq, x, y) if b => { if let Some(v) = term::as_k(*y) { Rc::make_mut(&mut self.vals).insert(*x, v); } }
                N::Cmp(COp::Ult, x, y) => { let n = term::cmp(COp::Ule, *y, *x); Rc::make_mut(&mut self.known).insert(n, !b); }
                N::Cmp(COp::Ule, x, y) => { let n = term::cmp(COp::Ult, *y, *x); Rc::make_mut(&mut self.known).insert(n, !b); }
                N::Cmp(COp::Slt, x, y) => { let n = term::cmp(COp::Sle, *y, *x); Rc::make_mut(&mut self.known).insert(n, !b); }
                N::Cmp(COp::Sle, x, y) => { let n = term::cmp(COp::Slt, *y, *x); Rc::make_mut(&mut self.known).insert(n, !b); }
                _ => {}
            }
        }
    }
}

impl Engine {
    pub fn new(m: Module, quick: bool, seed: u64, shard: (u64, u64), secs: f64) -> Engine {
        let mut e = Engine {
            m, callees: vec![], cidx: HashMap::new(), fns: HashMap::new(), gaddr: HashMap::new(), faddr: HashMap::new(), fbyaddr: vec![], base: Mem::default(),
            sol: Solver::new(if quick { 20000 } else { 120000 }), rsol: RealSolver::new(if quick { 3000 } else { 20000 }), csol: None, confirmed: [0; 4], csecs: 0.0, born: std::time::Instant::now(), st: Stats::default(), rng: Rng(seed ^ 0x5eed), viols: vec![], shard, quick,
            max_steps: 60_000_000, deadline: Instant::now() + std::time::Duration::from_secs_f64(secs), thin_budget: if quick { 2 } else { 3 }, trace: false, files: HashMap::new(), prims: crate::prims::table(), verdict_log: vec![], max_viol: 3, goals: BTreeMap::new(), prof: HashMap::new(), traces: 0,
        };
        e.layout();
        e
    }
    fn layout(&mut self) {
        let n = self.m.globals.len();
        for i in 0..n {
            let sz = self.m.globals[i].ty.size();
            let a = self.base.alloc(sz, Kind::Global, 0, 0);
            let name = self.m.globals[i].name.clone();
            self.gaddr.insert(name, a);
        }
        for i in 0..n {
            let (name, ty, cst, init) = { let g = &self.m.globals[i]; (g.name.clone(), g.ty.clone(), g.constant, g.init.clone()) };
            if let Some(c) = init {
                let a = self.gaddr[&name];
                self.init(&ty, &c, a);
                if cst { self.base.set_ro(a); }
            }
        }
    }
    fn init(&mut self, ty: &Ty, c: &Cst, a: u64) {
        match c {
            Cst::Bytes(b) => { self.base.obj_mut(a).unwrap().0.store_bytes(a as u32, b); }
            Cst::Agg(v) => { for (i, (t, c)) in v.iter().enumerate() { let (o, _) = ty.field_off(i); self.init(t, c, a + o); } }
            Cst::Zero | Cst::Undef => {}
            _ => { let v = self.cst(ty, c); let n = isz(ty); self.base.obj_mut(a).unwrap().0.store(a as u32, n, &v); }
        }
    }
    pub fn fn_addr(&mut self, n: &str) -> u64 {
        if let Some(a) = self.faddr.get(n) { return *a; }
        let a = FUNC | ((self.fbyaddr.len() as u64 + 1) << 4);
        self.fbyaddr.push(n.to_string());
        self.faddr.insert(n.to_string(), a);
        a
    }
    fn cst(&mut self, ty: &Ty, c: &Cst) -> Val {
        match c {
            Cst::Int(v) => if tyw(ty) > 64 { Val::W(*v) } else { Val::C(*v as u64) },
            Cst::F64(b) => Val::C(*b),
            Cst::Null => Val::C(0),
            Cst::Undef => self.zero(ty, true),
            Cst::Zero => self.zero(ty, false),
            Cst::Global(n) => {
                let n = self.m.aliases.get(n).cloned().unwrap_or(n.clone());
                if let Some(a) = self.gaddr.get(&n) { return Val::C(*a); }
                Val::C(self.fn_addr(&n))
            }
            Cst::Agg(v) => { let x = v.iter().map(|(t, c)| self.cst(t, c)).collect(); Val::V(Rc::new(x)) }
            Cst::Bytes(b) => Val::V(Rc::new(b.iter().map(|x| Val::C(*x as u64)).collect())),
            Cst::Add(a, b) => { let (x, y) = (self.cst(ty, a), self.cst(ty, b)); ibin(BinOp::Add, 64, &x, &y).unwrap() }
            Cst::Sub(a, b) => { let (x, y) = (self.cst(ty, a), self.cst(ty, b)); ibin(BinOp::Sub, 64, &x, &y).unwrap() }
            // relative pointer: objects lie 2^32 apart, so the difference is packed (see p_loadrel)
            Cst::Trunc(a, 32) if matches!(**a, Cst::Sub(..)) => {
                if let Cst::Sub(x, y) = &**a {
                    if let (Val::C(x), Val::C(y)) = (self.cst(&Ty::Int(64), x), self.cst(&Ty::Int(64), y)) {
                        let (d, l) = ((x >> 32) as i64 - (y >> 32) as i64, (x & 0xffff_ffff) as i64 - (y & 0xffff_ffff) as i64);
                        if d.abs() < 1 << 15 && l.abs() < 1 << 15 { return Val::C(((d as u64) << 16 | l as u64 & 0xffff) & 0xffff_ffff); }
                    }
                }
                Val::C(0)
            }
            Cst::Trunc(a, w) => { let x = self.cst(&Ty::Int(64), a); match x { Val::C(v) => Val::C(v & term::mask(*w) as u64), x => x } }
            Cst::Off(a, o) => { let x = self.cst(&Ty::Ptr, a); match x { Val::C(v) => Val::C(v.wrapping_add(*o as u64)), x => x } }
        }
    }
    fn zero(&self, ty: &Ty, undef: bool) -> Val {
        match ty {
            Ty::Vec(n, t) | Ty::Arr(n, t) => Val::V(Rc::new((0..*n).map(|_| self.zero(t, undef)).collect())),
            Ty::Struct(f, _) => Val::V(Rc::new(f.iter().map(|t| self.zero(t, undef)).collect())),
            Ty::Int(w) if *w > 64 => Val::W(0),
            _ => if undef { Val::U } else { Val::C(0) },
        }
    }
    pub fn func(&mut self, name: &str) -> Option<&'static LF> {
        if let Some(f) = self.fns.get(name) { return Some(f); }
        if !self.m.fn_src.contains_key(name) { return None; }
        let id = self.fns.len();
        let mut f = self.m.compile(name, id);
        let mut consts: Vec<Val> = vec![];
        let mut kmap: HashMap<String, u32> = HashMap::new();
        let mut lower = |e: &mut Engine, o: &mut Opd| {
            if let Opd::Cst(t, c) = o {
                let key = format!("{:?}{:?}", t, c);
                let ix = match kmap.get(&key) { Some(i) => *i, None => { let v = e.cst(t, c); consts.push(v); let i = consts.len() as u32 - 1; kmap.insert(key, i); i } };
                *o = Opd::K(ix);
            }
        };
        for b in f.blocks.iter_mut() {
            for (_, _, inc) in b.phis.iter_mut() { for (_, o) in inc.iter_mut() { lower(self, o); } }
            for i in b.instrs.iter_mut() {
                match &mut i.ins {
                    Ins::Bin(_, _, a, b) | Ins::ICmp(_, _, a, b) | Ins::FCmp(_, _, a, b) | Ins::ExtractElement(_, a, b) | Ins::Shuffle(_, a, b, _) | Ins::Store(_, a, b) | Ins::Rmw(_, _, a, b) | Ins::InsertValue(_, a, _, b, _) => { lower(self, a); lower(self, b); }
                    Ins::FNeg(_, a) | Ins::Cast(_, _, a, _) | Ins::Load(_, a) | Ins::Alloca(_, a, _) | Ins::ExtractValue(_, a, _) | Ins::Freeze(a) | Ins::CondBr(a, _, _) | Ins::Switch(_, a, _, _) => lower(self, a),
                    Ins::Select(_, a, b, c, _) | Ins::InsertElement(_, a, b, c) | Ins::CmpXchg(_, a, b, c) => { lower(self, a); lower(self, b); lower(self, c); }
                    Ins::Gep(a, _, v) => { lower(self, a); for x in v { lower(self, &mut x.1); } }
                    Ins::Ret(Some((_, a))) => lower(self, a),
                    Ins::Call { callee, args, .. } => {
                        for a in args.iter_mut() { lower(self, &mut a.1); }
                        match callee {
                            Callee::Indirect(o) => lower(self, o),
                            Callee::Direct(n) => {
                                let n = self.m.aliases.get(n).cloned().unwrap_or(n.clone());
                                let id = self.callee_id(&n);
                                *callee = Callee::Id(id);
                            }
                            _ => {}
                        }
                    }
                    _ => {}
                }
            }
        }
        let file = self.fn_file(f.dbg);
        let in_repo = file.starts_with("/repo/");
        let lf: &'static LF = Box::leak(Box::new(LF { f, consts, file, in_repo }));
        self.fns.insert(name.to_string(), lf);
        Some(lf)
    }
    fn callee_id(&mut self, n: &str) -> u32 {
        if let Some(i) = self.cidx.get(n) { return *i; }
        self.callees.push(CalleeInfo { name: n.to_string(), tgt: None });
        let i = self.callees.len() as u32 - 1;
        self.cidx.insert(n.to_string(), i);
        i
    }
    fn md_field(&self, id: u32, field: &str) -> Option<String> {
        let ln = self.m.lines[*self.m.md.get(&id)?];
        let p = ln.find(&format!("{}: ", field))?;
        let r = &ln[p + field.len() + 2..];
        let e = if r.starts_with('"') { r[1..].find('"')? + 2 } else { r.find(|c| c == ',' || c == ')')? };
        Some(r[..e].trim_matches('"').to_string())
    }
    fn fn_file(&self, dbg: u32) -> String {
        (|| { let f = self.md_field(dbg, "file")?; let fid: u32 = f.strip_prefix('!')?.parse().ok()?; let name = self.md_field(fid, "filename")?; let dir = self.md_field(fid, "directory").unwrap_or_default(); Some(if name.starts_with('/') { name } else { format!("{}/{}", dir, name) }) })().unwrap_or_default()
    }
    pub fn resolve(&mut self, id: u32) -> Tgt {
        if let Some(t) = &self.callees[id as usize].tgt { return t.clone(); }
        let n = self.callees[id as usize].name.clone();
        let t = self.resolve_name(&n);
        self.callees[id as usize].tgt = Some(t.clone());
        t
    }
    pub fn resolve_name(&mut self, n: &str) -> Tgt {
        if let Some(p) = self.prims.get(n) { return Tgt::Prim(*p); }
        if let Some(p) = crate::prims::by_pattern(n) { return Tgt::Prim(p); }
        if n.contains("4core9panicking") || n.contains("18handle_alloc_error") || n.contains("17capacity_overflow") || n.contains("7raw_vec12handle_error") || n.contains("18panic_access_error") || n.contains("3std9panicking") || n.contains("slice_error_fail") { return Tgt::Panic; }
        if let Some(f) = self.func(n) { return Tgt::Fn(f); }
        Tgt::Missing
    }
    pub fn initial(&mut self, entry: &str) -> State {
        let lf = self.func(entry).unwrap_or_else(|| panic!("no function {}", entry));
        let mut fx = Ctx::new();
        fx.thin_left = self.thin_budget;
        let mut st = State {
            frames: vec![], mem: self.base.clone(), path: vec![], known: Rc::new(HashMap::new()), vals: Rc::new(HashMap::new()), model: Some(Rc::new(HashMap::new())), fx, inputs: vec![], nsym: HashMap::new(), panic_mode: 0, panic_id: String::new(), mark: 0, mark_live: 0, steps: 0, choice_key: 0, choices: 0,
            forced: vec![], stdout: None, stdin: Rc::new(vec![]), stdin_at: 0, rng_calls: 0, depth_forks: 0, unwitnessed: false, draws: HashMap::new(),
        };
        st.mem.live = 0;
        self.push_frame(&mut st, lf, vec![], NODST, None);
        st
    }
    /// the word-at-a-time search for a byte goes to a plain loop, formatting of a double that is not a constant to the harness' injective stand-in
    fn stand_in(&mut self, f: &'static LF, av: &[Val], cx: &Ctx) -> &'static LF {
        if f.f.name.contains("5slice6memchr14memchr_aligned") { return self.func("sym_stub_memchr").unwrap_or(f); }
        if !f.f.name.contains("8to_decimal") && !f.f.name.contains("float_to_") { return f; }
        let to = if f.f.name.contains("float_to_decimal_common_exact") { "sym_stub_float_exact" } else if f.f.name.contains("float_to_decimal_common_shortest") { "sym_stub_float_shortest" } else if f.f.name.contains("float_to_exponential_common_shortest") { "sym_stub_float_exp" } else { return f };
        if av.len() < 2 || matches!(fval(&av[1], cx), FV::C(_)) { return f; }
        self.func(to).unwrap_or(f)
    }
    pub fn push_frame(&mut self, st: &mut State, lf: &'static LF, args: Vec<Val>, dst: u32, normal: Option<u32>) {
        let mut regs = vec![Val::U; lf.f.nregs as usize];
        let sb = st.mem.stack_len();
        for (i, (ty, r)) in lf.f.params.iter().enumerate() {
            let mut v = args.get(i).cloned().unwrap_or(Val::U);
            if let Some(sz) = lf.f.byval[i] { let a = st.mem.alloc_stack(sz); if let Val::C(s) = v { let _ = st.mem.copy(a, s, sz); } v = Val::C(a); }
            let _ = ty;
            regs[*r as usize] = v;
        }
        if lf.in_repo { self.st.funcs.insert(lf.f.name.clone()); }
        st.frames.push(Frame { lf, blk: 0, ip: 0, regs, stack_base: sb, dst, normal });
    }

    /// explore every path from the entry
    pub fn explore(&mut self, entry: &str) {
        let st = self.initial(entry);
        let mut work = vec![st];
        while let Some(mut st) = work.pop() {
            if Instant::now() > self.deadline || self.viols.len() >= self.max_viol {
                self.st.dropped += 1 + work.len() as u64;
                if self.viols.is_empty() { work.push(st); let n = work.len(); for k in 0..n.min(4) { let s = work[k * n / n.min(4)].clone(); self.probe(&s, 8); } }
                break;
            }
            let stop = self.run(&mut st);
            if self.trace { eprintln!("path stops: {:?} in {} (steps {}, inputs {:?})", stop, st.frames.last().map(|f| f.lf.f.name.clone()).unwrap_or_default(), st.steps, st.inputs.len()); }
            match stop {
                Stop::Need(t) => { self.st.forks += 1; self.fork(st, t, &mut work); }
                Stop::Conc(t) => { self.st.conc += 1; self.fork_conc(st, t, &mut work); }
                Stop::Choice(n) => {
                    for k in (0..n).rev() {
                        if st.choices == 0 && k % self.shard.1 != self.shard.0 { continue; }
                        let mut s = st.clone();
                        s.forced.push(k);
                        work.push(s);
                    }
                }
                Stop::Assume => { self.st.infeasible += 1; }
                Stop::Done => { self.st.paths += 1; self.st.done += 1; self.end(&st, "returned"); }
                Stop::Panic(m) => {
                    self.st.paths += 1;
                    self.st.panics += 1;
                    if st.panic_mode == 0 { self.violation(&st, format!("panic: {}", m), None, None); } else { self.end(&st, "panicked"); }
                }
                Stop::Mem(m) => { self.st.paths += 1; let at = self.wher(&st); self.violation(&st, format!("memory: {} at {}", m, at), None, None); }
                Stop::Viol(id, cx, model) => { self.st.paths += 1; self.violation(&st, id, cx, model); }
                Stop::Undecided(m) => { self.st.paths += 1; self.probe(&st, 3); *self.st.undecided.entry(m).or_insert(0) += 1; }
                Stop::Unsup(m) => { self.st.paths += 1; self.probe(&st, 6); let at = self.wher(&st); *self.st.unsup.entry(format!("{} at {}", m, at)).or_insert(0) += 1; }
                Stop::Cut(m) => { self.st.paths += 1; *self.st.cuts.entry(m).or_insert(0) += 1; }
            }
        }
        // goals nothing reaches, if everything was explored
        if self.st.dropped == 0 && self.st.cuts.is_empty() && self.st.undecided.is_empty() && self.st.unsup.is_empty() && self.viols.len() < self.max_viol {
            for ((id, ch), r) in std::mem::take(&mut self.goals) {
                if !r { self.viols.push(Violation { id: format!("{} (no input leads there)", id), replay: format!("# goal {}\n{}", id, ch.iter().map(|c| format!("c {}\n", c)).collect::<String>()), detail: String::new() }); }
            }
        }
    }
    /// inputs of a path the engine could not follow to its end, to be run natively
    fn probe(&mut self, st: &State, max: usize) {
        if self.st.probes.len() >= max || self.traces == 0 { return; }
        if let Some(w) = self.witness(st, None, None) { let g = st.fx.thin_used == 0; if !self.st.probes.iter().any(|p| p.0 == w) { self.st.probes.push((w, g)); } }
    }
    fn end(&mut self, st: &State, how: &str) {
        self.st.max_inputs = self.st.max_inputs.max(st.inputs.len());
        // a uniform sample of the finished paths, to be replayed natively
        if self.traces > 0 {
            let n = self.st.traces.len();
            let slot = if n < self.traces { Some(n) } else { let k = (self.rng.next() % self.st.paths.max(1)) as usize; if k < self.traces { Some(k) } else { None } };
            if let Some(k) = slot { if let Some(w) = self.witness(st, None, None) { let t = (w, how == "panicked", st.fx.thin_used == 0 && st.fx.lits.iter().all(|(l, _)| fl::fa().lits[*l as usize].0 == LK::Zero)); if k < self.st.traces.len() { self.st.traces[k] = t; } else { self.st.traces.push(t); } } }
        }
        if self.st.samples.len() < 3 || (self.st.paths.is_power_of_two() && self.st.samples.len() < 12) {
            let s = format!("path {}: {} after {} instructions; inputs [{}]; {} bit-vector and {} real path conditions{}", self.st.paths, how, st.steps, st.inputs.iter().map(|i| match i { Input::Choice(c) => format!("choice={}", c), Input::Bits(t) => format!("bv{}{}", term::width(*t), match st.vals.get(t) { Some(v) => format!("={}", v), None => "=*".into() }), Input::Real(f) => fl::show(st.fx.norm(*f)) }).collect::<Vec<_>>().join(", "), st.path.len(), st.fx.lits.len(), if st.fx.thin_used > 0 { format!(", {} equality cases", st.fx.thin_used) } else { String::new() });
            self.st.samples.push(s);
        }
    }
    pub fn wher(&self, st: &State) -> String {
        for f in st.frames.iter().rev() { if f.lf.in_repo { let ins = &f.lf.f.blocks[f.blk as usize].instrs[f.ip as usize]; return format!("{}:{} ({})", f.lf.file, self.line_of(ins.dbg), demangle(&f.lf.f.name)); } }
        st.frames.last().map(|f| demangle(&f.lf.f.name)).unwrap_or_default()
    }
    fn line_of(&self, dbg: u32) -> String { self.md_field(dbg, "line").unwrap_or_default() }

    // ------------------------------------------------------------ forking
    fn model_val(&self, st: &State, t: T) -> Option<u128> { let m = st.model.as_ref()?; term::eval(t, m, &mut HashMap::new()) }
    fn fork(&mut self, st: State, t: T, work: &mut Vec<State>) {
        if let N::RLit(l) = term::node(t) { let l = *l; self.fork_real(st, l, work); return; }
        // bit-vector condition
        let cur = self.model_val(&st, t);
        let mut sides: Vec<(bool, Option<Rc<HashMap<u32, u128>>>)> = vec![];
        for b in [true, false] {
            if cur == Some(b as u128) { sides.push((b, st.model.clone())); continue; }
            let c = if b { t } else { term::not(t) };
            match self.sol.check(&st.path, c) {
                (R::Sat, m) => sides.push((b, Some(Rc::new(m)))),
                (R::Unsat, _) => {}
                (R::Unknown, _) => sides.push((b, None)),
            }
        }
        if sides.is_empty() { self.st.infeasible += 1; return; }
        let n = sides.len();
        let mut st = Some(st);
        for (i, (b, m)) in sides.into_iter().enumerate() {
            let mut s = if i + 1 == n { st.take().unwrap() } else { st.as_ref().unwrap().clone() };
            if n > 1 { s.depth_forks += 1; }
            s.assume_bv(t, b);
            if m.is_some() { s.model = m; } else { s.model = None; }
            work.push(s);
        }
    }
    fn fork_conc(&mut self, st: State, t: T, work: &mut Vec<State>) {
        let w = term::width(t);
        let v = match self.model_val(&st, t) {
            Some(v) => v,
            None => {
                let x = term::new_var("conc", w);
                let (r, m) = self.sol.check(&st.path, term::eq(x, t));
                match (r, term::node(x)) { (R::Sat, N::Var(i)) => *m.get(i).unwrap_or(&0), _ => { *self.st.cuts.entry("concretisation: solver gave no value".into()).or_insert(0) += 1; self.st.paths += 1; return; } }
            }
        };
        let c = term::eq(t, term::k(v, w));
        let mut a = st.clone();
        a.assume_bv(c, true);
        Rc::make_mut(&mut a.vals).insert(t, v);
        if self.model_val(&st, c) != Some(1) { let (r, m) = self.sol.check(&st.path, c); if r == R::Sat { a.model = Some(Rc::new(m)); } else { a.model = None; } }
        match self.sol.check(&st.path, term::not(c)) {
            (R::Unsat, _) => {}
            (r, m) => {
                let mut b = st;
                b.depth_forks += 1;
                b.assume_bv(c, false);
                b.model = if r == R::Sat { Some(Rc::new(m)) } else { None };
                if b.depth_forks > 4000 { *self.st.cuts.entry("concretisation limit".into()).or_insert(0) += 1; } else { work.push(b); }
            }
        }
        work.push(a);
    }
    fn fork_real(&mut self, st: State, l: u32, work: &mut Vec<State>) {
        let (k, f) = fl::fa().lits[l as usize];
        let (lo, hi) = fl::bounds(f);
        let known = match k {
            LK::Zero => if lo > 1e-9 || hi < -1e-9 { Some(false) } else { None },
            LK::Le => if hi <= 0.0 { Some(true) } else if lo > 1e-9 { Some(false) } else { None },
            LK::Lt => if hi < -1e-9 { Some(true) } else if lo >= 0.0 { Some(false) } else { None },
        };
        if let Some(b) = known { let mut s = st; s.fx.assume(l, b); work.push(s); return; }
        let mut base = st;
        if base.fx.samples.len() < 6 { let mut r = self.rng.clone(); base.fx.resample(6, 60, &mut r); self.rng = r; }
        if k == LK::Zero {
            // generic side
            let mut g = base.clone();
            g.fx.assume(l, false);
            if g.fx.samples.is_empty() { let mut r = self.rng.clone(); g.fx.resample(4, 300, &mut r); self.rng = r; }
            let generic_ok = if g.fx.samples.is_empty() { self.nra(&base.fx, l, false) != R::Unsat } else { true };
            if generic_ok { if g.fx.samples.is_empty() { g.unwitnessed = true; } work.push(g); }
            // equality side
            if base.fx.thin_left <= 0 { *self.st.cuts.entry("equality case beyond the per-path budget".into()).or_insert(0) += 1; return; }
            match base.fx.solve_zero(f) {
                Ok(cs) => for mut c in cs {
                    c.thin_left -= 1;
                    c.thin_used += 1;
                    let mut r = self.rng.clone();
                    c.resample(4, 400, &mut r);
                    self.rng = r;
                    if c.samples.is_empty() {
                        if self.nra_ctx(&c) == R::Unsat { self.st.infeasible += 1; continue; }
                        *self.st.cuts.entry("equality case without a witness".into()).or_insert(0) += 1;
                        continue;
                    }
                    self.st.thin += 1;
                    let mut s = base.clone();
                    s.fx = c;
                    s.depth_forks += 1;
                    if !s.fx.known.contains_key(&l) { s.fx.known.insert(l, true); }
                    work.push(s);
                },
                Err(p) => { if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("cut: {} = 0", p); } *self.st.cuts.entry("equality case not solvable in closed form".into()).or_insert(0) += 1; }
            }
            return;
        }
        for b in [true, false] {
            let mut s = base.clone();
            s.fx.assume(l, b);
            s.depth_forks += 1;
            if s.fx.samples.is_empty() { let mut r = self.rng.clone(); s.fx.resample(4, 300, &mut r); self.rng = r; }
            if s.fx.samples.is_empty() {
                match self.nra(&base.fx, l, b) { R::Unsat => { self.st.infeasible += 1; continue; } _ => { s.unwitnessed = true; } }
            }
            work.push(s);
        }
    }
    fn nra(&mut self, cx: &Ctx, l: u32, b: bool) -> R {
        if std::env::var("SYMEX_CUTS").is_ok() { let (k, f) = fl::fa().lits[l as usize]; eprintln!("nra {:?}({}) = {} under {}", k, fl::show(f), b, cx.describe()); }
        let mut s = fl::Smt::new();
        let q = s.lit(l, b);
        let c = s.ctx(cx);
        let script = format!("{}{}{}(assert {})\n", s.decls, s.cons, c, q);
        self.rsol.check(&script)
    }
    fn nra_ctx(&mut self, cx: &Ctx) -> R {
        let mut s = fl::Smt::new();
        let c = s.ctx(cx);
        let c = c + &s.ctx(cx)[0..0];
        let script = format!("{}{}{}", s.decls, s.cons, c);
        // only tells an infeasible case from one that is reported as left out
        self.rsol.check_ms(&script, 100)
    }
    /// z3's verdict on equalities the normal form has decided: is some pair further apart than 1e-6 on this path?
    pub fn confirm(&mut self, st: &State, pairs: &[(F, F)]) {
        if self.csecs > 2.0 + if self.quick { 0.25 } else { 0.8 } * self.born.elapsed().as_secs_f64() { return; }
        let t0 = std::time::Instant::now();
        let mut s = fl::Smt::new();
        let q: Vec<String> = pairs.iter().filter(|(a, b)| a != b).map(|(a, b)| { let (a, b) = (s.poly(*a), s.poly(*b)); format!("(let ((d (- {a} {b}))) (or (> d 0.000001) (< d (- 0.000001))))") }).collect();
        let same: Vec<String> = pairs.iter().filter(|(a, b)| a == b).map(|(a, b)| { let (a, b) = (s.poly(*a), s.poly(*b)); format!("(distinct {a} {b})") }).collect();
        let f = s.fixed(&st.fx);
        let c = s.ctx(&st.fx);
        let script = format!("{}{}{}{}(assert (or false {} {}))\n", s.decls, s.cons, f, c, q.join(" "), same.join(" "));
        let r = self.csol.get_or_insert_with(|| RealSolver::new(300)).check_ms(&script, 300);
        self.csecs += t0.elapsed().as_secs_f64();
        self.confirmed[0] += 1;
        match r {
            R::Unsat => self.confirmed[1] += 1,
            R::Unknown => { self.confirmed[2] += 1; if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("unconfirmed: {}", script); } }
            R::Sat => { self.confirmed[3] += 1; if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("contradicted: {}", script); } }
        }
    }
    /// |p| <= tol on the whole path?
    pub fn prove_small(&mut self, st: &mut State, p: F, tol: f64, id: &str) -> X<()> {
        self.st.checks += 1;
        self.st.checks_real += 1;
        *self.st.check_ids.entry(id.to_string()).or_insert(0) += 1;
        let raw = p;
        let p = st.fx.norm(p);
        if let Some(c) = fl::as_const(p) {
            if c.abs() <= tol { self.st.checks_real_const += 1; if c.abs() < 1e-7 { self.confirm(st, &[(raw, fl::cst(0.0))]); } return Ok(()); }
            if st.unwitnessed && st.fx.samples.is_empty() { return Err(Stop::Undecided(format!("{}: on a path without a witness", id))); }
            return Err(Stop::Viol(id.into(), None, None));
        }
        let mut found = None;
        let mut fx = st.fx.clone();
        let mut r = self.rng.clone();
        fx.samples.clear();
        fx.resample(12, 400, &mut r);
        self.rng = r;
        for s in fx.samples.iter().chain(st.fx.samples.iter()) { let x = fx.ev(p, s); if x.abs() > (10.0 * tol).max(1e-6) { found = Some(s.clone()); break; } }
        if let Some(s) = found { let mut c = fx.clone(); c.samples = vec![s]; return Err(Stop::Viol(id.into(), Some(c), None)); }
        let mut s = fl::Smt::new();
        let e = s.poly(p);
        let c = s.ctx(&st.fx);
        let t = fl::rat(tol.max(1e-9));
        let script = format!("{}{}{}(assert (or (> {e} {t}) (< {e} (- {t}))))\n", s.decls, s.cons, c);
        match self.rsol.check(&script) {
            R::Unsat => { self.st.checks_solver += 1; Ok(()) }
            _ => { if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("undecided {}: {}", id, fl::show(p)); } Err(Stop::Undecided(format!("{}: real-arithmetic query", id))) }
        }
    }
    /// a boolean assertion
    pub fn assert_t(&mut self, st: &mut State, v: &Val, id: &str) -> X<()> {
        let ok = match v {
            Val::T(t) => {
                let t = st.reals(*t)?;
                let t = st.rewrite(t);
                match term::as_k(t) {
                    Some(x) => x & 1 == 1,
                    None if !term::has_real(t) => {
                        // one query, no fork
                        self.st.checks_solver += 1;
                        let nt = term::not(t);
                        match self.sol.check(&st.path, nt) {
                            (R::Unsat, _) => { st.assume_bv(t, true); true }
                            (R::Sat, m) => { self.count(id); return Err(Stop::Viol(id.into(), None, Some(m))); }
                            _ => { if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("undecided {}: {} under {}", id, term::show(t, 12), st.path.iter().map(|t| term::show(*t, 8)).collect::<Vec<_>>().join(" ; ")); } self.count(id); return Err(Stop::Undecided(format!("{}: bit-vector query", id))); }
                        }
                    }
                    None => st.decide_t(t)?,
                }
            }
            v => st.decide(v)?,
        };
        self.count(id);
        if ok { Ok(()) } else if st.unwitnessed && st.fx.samples.is_empty() { if std::env::var("SYMEX_CUTS").is_ok() { eprintln!("undecided assert {}: {} choices {:?}", id, st.fx.describe(), st.inputs.iter().filter_map(|i| if let Input::Choice(c) = i { Some(*c) } else { None }).collect::<Vec<_>>()); } Err(Stop::Undecided(format!("{}: on a path without a witness", id))) } else { Err(Stop::Viol(id.into(), None, None)) }
    }
    pub fn count(&mut self, id: &str) { self.st.checks += 1; *self.st.check_ids.entry(id.to_string()).or_insert(0) += 1; }

    /// concrete inputs that drive the native code down this path
    fn witness(&mut self, st: &State, cx: Option<Ctx>, model: Option<HashMap<u32, u128>>) -> Option<String> {
        let mut fx = cx.unwrap_or_else(|| st.fx.clone());
        if fx.samples.is_empty() { let mut r = self.rng.clone(); fx.resample(1, 3000, &mut r); self.rng = r; }
        let model = match model { Some(m) => Some(m), None => match &st.model { Some(m) if st.path.iter().all(|c| term::eval(*c, m, &mut HashMap::new()) == Some(1)) => Some((**m).clone()), _ => { let (r, m) = self.sol.check(&st.path, term::tt()); if r == R::Sat { Some(m) } else { None } } } };
        if (model.is_none() && !st.path.is_empty()) || (fx.samples.is_empty() && !fx.base.is_empty()) { return None; }
        let model = model.unwrap_or_default();
        let mut out = String::new();
        for i in &st.inputs {
            match i {
                Input::Choice(c) => out += &format!("c {}\n", c),
                Input::Bits(t) => out += &format!("b {} {:x}\n", term::width(*t), term::eval(*t, &model, &mut HashMap::new()).unwrap_or(0)),
                Input::Real(f) => { let x = if fx.samples.is_empty() { fl::as_const(*f).unwrap_or(0.0) } else { fx.ev(*f, &fx.samples[0]) }; out += &format!("r {:016x} {:?}\n", x.to_bits(), x); }
            }
        }
        Some(out)
    }
    fn violation(&mut self, st: &State, id: String, cx: Option<Ctx>, model: Option<HashMap<u32, u128>>) {
        let at = self.wher(st);
        match self.witness(st, cx, model) {
            Some(out) => self.viols.push(Violation { id, replay: out, detail: at }),
            None => { *self.st.undecided.entry(format!("{}: no witness values", id)).or_insert(0) += 1; }
        }
    }

    // ------------------------------------------------------------ stepping
    fn run(&mut self, st: &mut State) -> Stop {
        loop {
            if self.trace && st.steps % 100_000 == 99_999 { eprintln!("at {} ({} steps)", self.wher(st), st.steps); eprintln!("{:?}", st.frames.iter().map(|f| demangle(&f.lf.f.name)).collect::<Vec<_>>()); }
            match self.step(st) { Ok(true) => return Stop::Done, Ok(false) => {} Err(s) => return s }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        let b = &fr.lf.f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, _, inc) = &b.phis[0];
                let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1;
                let v = match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => fr.lf.consts[*k as usize].clone(), _ => unreachable!() };
                fr.regs[*d as usize] = v;
            } else {
                let vs: Vec<Val> = b.phis.iter().map(|(_, _, inc)| { let o = &inc.iter().find(|x| x.0 == from).expect("phi edge").1; match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => fr.lf.consts[*k as usize].clone(), _ => unreachable!() } }).collect();
                for ((d, _, _), v) in b.phis.iter().zip(vs) { fr.regs[*d as usize] = v; }
            }
        }
        fr.blk = to;
        fr.ip = 0;
    }
    pub fn ret(&mut self, st: &mut State, v: Option<Val>) -> bool {
        let fr = st.frames.pop().unwrap();
        st.mem.stack_cut(fr.stack_base);
        if st.frames.is_empty() { return true; }
        let c = st.frames.last_mut().unwrap();
        if let (Some(v), true) = (v, fr.dst != NODST) { c.regs[fr.dst as usize] = v; }
        match fr.normal { Some(b) => self.jump(st, b), None => st.frames.last_mut().unwrap().ip += 1 }
        false
    }
    fn step(&mut self, st: &mut State) -> X<bool> {
        st.steps += 1;
        self.st.steps += 1;
        if st.steps & 0xffff == 0 { if st.steps > self.max_steps { return Err(Stop::Cut("instruction budget per path".into())); } if Instant::now() > self.deadline { self.st.dropped += 1; return Err(Stop::Cut("time budget".into())); } }
        let fr = st.frames.last_mut().unwrap();
        let lf = fr.lf;
        let i = &lf.f.blocks[fr.blk as usize].instrs[fr.ip as usize];
        if lf.in_repo && i.dbg != 0 { self.st.lines.insert((i.dbg, lf.f.id)); }
        macro_rules! v { ($o:expr) => { match $o { Opd::Reg(r) => &fr.regs[*r as usize], Opd::K(k) => &lf.consts[*k as usize], _ => unreachable!() } } }
        macro_rules! set { ($x:expr) => {{ let x = $x; let fr = st.frames.last_mut().unwrap(); if i.dst != NODST { fr.regs[i.dst as usize] = x; } fr.ip += 1; return Ok(false); }} }
        match &i.ins {
            Ins::Bin(op, ty, a, b) => {
                let (a, b) = (v!(a), v!(b));
                if let (Ty::Int(w), Val::C(x), Val::C(y)) = (ty, a, b) {
                    let m = if *w == 64 { u64::MAX } else { (1u64 << w).wrapping_sub(1) };
                    let r = match op { BinOp::Add => Some(x.wrapping_add(*y)), BinOp::Sub => Some(x.wrapping_sub(*y)), BinOp::And => Some(x & y), BinOp::Or => Some(x | y), BinOp::Xor => Some(x ^ y), _ => None };
                    if let Some(r) = r { let d = i.dst as usize; fr.regs[d] = Val::C(r & m); fr.ip += 1; return Ok(false); }
                }
                let r = if matches!((op, ty), (BinOp::FRem, Ty::F64)) { let (x, y) = (a.clone(), b.clone()); crate::prims::fremp(&x, &y, st)? } else { self.binop(*op, ty, &a.clone(), &b.clone(), &st.fx)? };
                set!(r)
            }
            Ins::ICmp(p, ty, a, b) => {
                let (a, b) = (v!(a), v!(b));
                let r = match ty {
                    Ty::Vec(_, t) => { let w = tyw(t); match (a, b) { (Val::V(x), Val::V(y)) => Val::V(Rc::new(x.iter().zip(y.iter()).map(|(x, y)| icmp(*p, w, x, y)).collect())), _ => return Err(Stop::Unsup("vector icmp".into())) } }
                    _ => icmp(*p, tyw(ty), a, b),
                };
                set!(r)
            }
            Ins::Load(ty, p) => {
                let a = v!(p).clone();
                let a = match a { Val::C(x) => x, a => { if let Some(r) = self.table_load(st, ty, &a)? { set!(r); } st.conc(&a, 64)? } };
                let r = st.load_ty(ty, a)?;
                set!(r)
            }
            Ins::Store(ty, x, p) => {
                let x = v!(x).clone();
                let a = v!(p).clone();
                let a = st.conc(&a, 64)?;
                st.store_ty(ty, a, &x)?;
                set!(Val::U)
            }
            Ins::Gep(base, off, dynix) => {
                let b = v!(base).clone();
                let mut r = match b { Val::C(x) => Val::C(x.wrapping_add(*off as u64)), ref o => ibin(BinOp::Add, 64, o, &Val::C(*off as u64))? };
                for (t, o, sc) in dynix {
                    let x = v!(o);
                    let w = tyw(t);
                    let x = match x { Val::C(x) => Val::C(if w == 64 { *x } else { term::sx(*x as u128, w) as u64 }), Val::T(t) => Val::of(term::sext(*t, 64)), Val::U => Val::C(0), x => x.clone() };
                    let y = ibin(BinOp::Mul, 64, &x, &Val::C(*sc as u64))?;
                    r = ibin(BinOp::Add, 64, &r, &y)?;
                }
                set!(r)
            }
            Ins::Br(b) => { let b = *b; self.jump(st, b); Ok(false) }
            Ins::CondBr(c, a, b) => {
                let c = v!(c).clone();
                let t = st.decide(&c)?;
                let to = if t { *a } else { *b };
                self.jump(st, to);
                Ok(false)
            }
            Ins::Switch(ty, x, d, cs) => {
                let x = v!(x).clone();
                let mut to = *d;
                match &x {
                    Val::C(v) => { for (k, b) in cs { if *k as u64 == *v { to = *b; break; } } }
                    _ => {
                        let w = tyw(ty);
                        let t = x.term(w);
                        for (k, b) in cs { if st.decide_t(term::eq(t, term::k(*k, w)))? { to = *b; break; } }
                    }
                }
                self.jump(st, to);
                Ok(false)
            }
            Ins::Ret(o) => { let r = o.as_ref().map(|(_, o)| v!(o).clone()); Ok(self.ret(st, r)) }
            Ins::Call { callee, args, ret, normal } => {
                let tgt = match callee {
                    Callee::Id(id) => { let id = *id; self.resolve(id) }
                    Callee::Indirect(o) => {
                        let x = v!(o).clone();
                        let a = st.conc(&x, 64)?;
                        if a & FUNC == 0 || a & 15 != 0 { return Err(Stop::Mem(format!("call through {:#x}", a))); }
                        let ix = ((a & !FUNC) >> 4) as usize - 1;
                        let n = match self.fbyaddr.get(ix) { Some(n) => n.clone(), None => return Err(Stop::Mem(format!("call through {:#x}", a))) };
                        self.resolve_name(&n)
                    }
                    Callee::Asm(s) => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| v!(o).clone()).collect();
                        let r = asm(s, &av)?;
                        set!(r)
                    }
                    _ => unreachable!(),
                };
                let fr = st.frames.last().unwrap();
                match tgt {
                    Tgt::Fn(f) => {
                        let av: Vec<Val> = args.iter().map(|(_, o)| match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => lf.consts[*k as usize].clone(), _ => unreachable!() }).collect();
                        if st.frames.len() > 400 { return Err(Stop::Unsup("call depth".into())); }
                        let f = self.stand_in(f, &av, &st.fx);
                        self.push_frame(st, f, av, i.dst, *normal);
                        Ok(false)
                    }
                    Tgt::Prim(p) => {
                        let av: Vec<(Ty, Val)> = args.iter().map(|(t, o)| (t.clone(), match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(k) => lf.consts[*k as usize].clone(), _ => unreachable!() })).collect();
                        let r = p(self, st, &av, ret)?;
                        let fr = st.frames.last_mut().unwrap();
                        if i.dst != NODST { fr.regs[i.dst as usize] = r; }
                        match normal { Some(b) => { let b = *b; self.jump(st, b) } None => fr.ip += 1 }
                        Ok(false)
                    }
                    Tgt::Panic => {
                        let at = self.wher(st);
                        Err(Stop::Panic(at))
                    }
                    Tgt::Missing => {
                        let n = match callee { Callee::Id(id) => self.callees[*id as usize].name.clone(), _ => "?".into() };
                        Err(Stop::Unsup(format!("call of external function {}", n)))
                    }
                }
            }
            Ins::Select(ty, c, a, b, vc) => {
                let (c, a, b) = (v!(c).clone(), v!(a).clone(), v!(b).clone());
                if *vc {
                    match (&c, &a, &b) {
                        (Val::V(c), Val::V(x), Val::V(y)) => { let mut o = vec![]; for k in 0..c.len() { let cond = st.decide(&c[k])?; o.push(if cond { x[k].clone() } else { y[k].clone() }); } set!(Val::V(Rc::new(o))) }
                        _ => return Err(Stop::Unsup("vector select".into())),
                    }
                }
                let r = match &c {
                    Val::C(x) => if x & 1 == 1 { a } else { b },
                    Val::T(t) => {
                        let t = st.rewrite(*t);
                        let scalar_int = matches!(ty, Ty::Int(_)) || (matches!(ty, Ty::F64) && !term::has_real(t) && !matches!(a, Val::F(_)) && !matches!(b, Val::F(_)));
                        if scalar_int { let w = tyw(ty); Val::of(term::ite(t, a.term(w), b.term(w))) } else if st.decide_t(t)? { a } else { b }
                    }
                    _ => if st.decide(&c)? { a } else { b },
                };
                set!(r)
            }
            Ins::Cast(op, from, a, to) => { let a = v!(a).clone(); let r = self.cast(*op, from, &a, to, st)?; set!(r) }
            Ins::FNeg(ty, a) => { let a = v!(a).clone(); let r = match (ty, &a) { (Ty::Vec(..), Val::V(x)) => { let mut o = vec![]; for e in x.iter() { o.push(funary(FOp::Neg, e, &st.fx)?); } Val::V(Rc::new(o)) } _ => funary(FOp::Neg, &a, &st.fx)? }; set!(r) }
            Ins::FCmp(p, ty, a, b) => {
                let (a, b) = (v!(a).clone(), v!(b).clone());
                let r = match (ty, &a, &b) { (Ty::Vec(..), Val::V(x), Val::V(y)) => { let mut o = vec![]; for (x, y) in x.iter().zip(y.iter()) { o.push(fcmp(*p, x, y, &st.fx)?); } Val::V(Rc::new(o)) } _ => fcmp(*p, &a, &b, &st.fx)? };
                set!(r)
            }
            Ins::Alloca(sz, c, _) => { let c = v!(c).clone(); let n = st.conc(&c, 64)?; let a = st.mem.alloc_stack(sz * n); set!(Val::C(a)) }
            Ins::ExtractValue(_, a, ix) => { let mut x = v!(a).clone(); for k in ix { x = match x { Val::V(v) => v[*k as usize].clone(), _ => Val::U }; } set!(x) }
            Ins::InsertValue(ty, a, _, b, ix) => {
                let a = v!(a).clone();
                let b = v!(b).clone();
                let a = if matches!(a, Val::V(_)) { a } else { self.zero(ty, true) };
                fn ins(a: Val, ix: &[u32], b: Val) -> Val { if ix.is_empty() { return b; } match a { Val::V(mut v) => { let m = Rc::make_mut(&mut v); let old = std::mem::replace(&mut m[ix[0] as usize], Val::U); m[ix[0] as usize] = ins(old, &ix[1..], b); Val::V(v) } x => x } }
                set!(ins(a, ix, b))
            }
            Ins::ExtractElement(_, a, ix) => { let a = v!(a).clone(); let k = v!(ix).clone(); let k = st.conc(&k, 64)?; let r = match a { Val::V(v) => v[k as usize].clone(), _ => Val::U }; set!(r) }
            Ins::InsertElement(ty, a, b, ix) => {
                let a = v!(a).clone();
                let b = v!(b).clone();
                let k = v!(ix).clone();
                let k = st.conc(&k, 64)?;
                let a = if matches!(a, Val::V(_)) { a } else { self.zero(ty, true) };
                let r = match a { Val::V(mut v) => { Rc::make_mut(&mut v)[k as usize] = b; Val::V(v) } x => x };
                set!(r)
            }
            Ins::Shuffle(ty, a, b, mk) => {
                let a = v!(a).clone();
                let b = v!(b).clone();
                let n = match ty { Ty::Vec(n, _) => *n as i64, _ => 0 };
                let g = |v: &Val, k: i64| match v { Val::V(v) => v[k as usize].clone(), _ => Val::U };
                let r = mk.iter().map(|k| if *k < 0 { Val::U } else if *k < n { g(&a, *k) } else { g(&b, *k - n) }).collect();
                set!(Val::V(Rc::new(r)))
            }
            Ins::Rmw(op, ty, p, x) => {
                let x = v!(x).clone();
                let p = v!(p).clone();
                let a = st.conc(&p, 64)?;
                let old = st.load_ty(ty, a)?;
                let w = tyw(ty);
                let n = match op.as_str() { "xchg" => x, "add" => ibin(BinOp::Add, w, &old, &x)?, "sub" => ibin(BinOp::Sub, w, &old, &x)?, "and" => ibin(BinOp::And, w, &old, &x)?, "or" => ibin(BinOp::Or, w, &old, &x)?, "xor" => ibin(BinOp::Xor, w, &old, &x)?, o => return Err(Stop::Unsup(format!("atomicrmw {}", o))) };
                st.store_ty(ty, a, &n)?;
                set!(old)
            }
            Ins::CmpXchg(ty, p, c, n) => {
                let (p, c, n) = (v!(p).clone(), v!(c).clone(), v!(n).clone());
                let a = st.conc(&p, 64)?;
                let old = st.load_ty(ty, a)?;
                let e = icmp(Pred::Eq, tyw(ty), &old, &c);
                let e = st.decide(&e)?;
                if e { st.store_ty(ty, a, &n)?; }
                set!(Val::V(Rc::new(vec![old, Val::C(e as u64)])))
            }
            Ins::Freeze(a) => { let a = v!(a).clone(); set!(if let Val::U = a { Val::C(0) } else { a }) }
            Ins::Fence => set!(Val::U),
            Ins::Unreachable => Err(Stop::Unsup("unreachable executed".into())),
            Ins::LandingPad | Ins::Resume => Err(Stop::Unsup("landing pad".into())),
            Ins::Unsupported(s) => Err(Stop::Unsup(s.clone())),
        }
    }
    fn table_load(&mut self, st: &State, ty: &Ty, a: &Val) -> X<Option<Val>> {
        // symbolic index into a small constant table
        let t = match a { Val::T(t) => st.rewrite(*t), _ => return Ok(None) };
        if term::as_k(t).is_some() || term::has_real(t) { return Ok(None); }
        let w = match ty { Ty::Int(w) => *w, _ => return Ok(None) };
        let (off, basek) = match term::node(t) { N::Bin(BOp::Add, x, y) => match term::as_k(*y) { Some(k) => (*x, k as u64), None => return Ok(None) }, _ => return Ok(None) };
        let (o, base) = match st.mem.obj(basek) { Ok((o, b)) => (o, b), Err(_) => return Ok(None) };
        let n = isz(ty);
        if !o.ro || !o.sym.is_empty() || o.data.len() > 1024 { return Ok(None); }
        let lim = (o.data.len() as u64).saturating_sub(base as u64);
        let hi = term::hi(off);
        if hi as u64 + n as u64 > lim || hi > 4096 {
            let inb = term::cmp(COp::Ule, off, term::k((lim.saturating_sub(n as u64)) as u128, 64));
            if self.sol.check(&st.path, term::not(inb)).0 != R::Unsat { return Ok(None); }
        }
        let max = (hi as u64).min(lim - n as u64);
        if max > 512 { return Ok(None); }
        let mut r = None;
        for k in (0..=max).rev() {
            let v = o.load(base + k as u32, n).term(n * 8);
            let v = if n * 8 > w { term::extract(v, 0, w) } else { v };
            r = Some(match r { None => v, Some(x) => term::ite(term::eq(off, term::k(k as u128, 64)), v, x) });
        }
        Ok(r.map(Val::of))
    }
    fn binop(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val, cx: &Ctx) -> X<Val> {
        match ty {
            Ty::Vec(_, t) => match (a, b) {
                (Val::V(x), Val::V(y)) => { let mut o = vec![]; for (x, y) in x.iter().zip(y.iter()) { o.push(self.binop(op, t, x, y, cx)?); } Ok(Val::V(Rc::new(o))) }
                _ => Err(Stop::Unsup("vector operation".into())),
            },
            Ty::F64 => match op { BinOp::FAdd => fbin(FOp::Add, a, b, cx), BinOp::FSub => fbin(FOp::Sub, a, b, cx), BinOp::FMul => fbin(FOp::Mul, a, b, cx), BinOp::FDiv => fbin(FOp::Div, a, b, cx), BinOp::FRem => match (a, b) { (Val::C(x), Val::C(y)) => Ok(Val::C((f64::from_bits(*x) % f64::from_bits(*y)).to_bits())), _ => Ok(Val::of(term::uf("frem", vec![a.term(64), b.term(64)], 64))) }, _ => Err(Stop::Unsup("float op".into())) },
            Ty::F32 => Err(Stop::Unsup("f32".into())),
            _ => ibin(op, tyw(ty), a, b),
        }
    }
    fn cast(&mut self, op: CastOp, from: &Ty, a: &Val, to: &Ty, st: &State) -> X<Val> {
        if let (Ty::Vec(_, f), Ty::Vec(_, t), Val::V(x)) = (from, to, a) {
            if op != CastOp::Bitcast || f.size() == t.size() && tyw(f) == tyw(t) { let mut o = vec![]; for e in x.iter() { o.push(self.cast(op, f, e, t, st)?); } return Ok(Val::V(Rc::new(o))); }
        }
        let (wf, wt) = (tyw(from), tyw(to));
        Ok(match op {
            CastOp::Trunc => match a { Val::C(x) => Val::C(x & term::mask(wt) as u64), Val::W(x) => if wt > 64 { Val::W(x & term::mask(wt)) } else { Val::C((x & term::mask(wt)) as u64) }, Val::U => Val::U, _ => Val::of(term::extract(a.term(wf), 0, wt)) },
            CastOp::Zext => match a { Val::C(x) => if wt > 64 { Val::W(*x as u128) } else { Val::C(*x) }, Val::U => Val::C(0), _ => Val::of(term::zext(a.term(wf), wt)) },
            CastOp::Sext => match a { Val::C(x) => { let r = term::sx(*x as u128, wf) as u128 & term::mask(wt); if wt > 64 { Val::W(r) } else { Val::C(r as u64) } } Val::U => Val::C(0), _ => Val::of(term::sext(a.term(wf), wt)) },
            CastOp::PtrToInt | CastOp::IntToPtr => a.clone(),
            CastOp::Bitcast => match (from, to, a) {
                (Ty::Vec(n, t), Ty::Int(_), Val::V(v)) if **t == Ty::Int(1) => {
                    let mut r: Option<T> = None;
                    if v.iter().all(|x| matches!(x, Val::C(_) | Val::U)) { let mut b = 0u64; for i in 0..*n as usize { if let Val::C(1) = v[i] { b |= 1 << i; } } return Ok(Val::C(b)); }
                    for i in 0..*n as usize { let x = v[i].term(1); r = Some(match r { None => x, Some(r) => term::concat(x, r) }); }
                    Val::of(r.unwrap())
                }
                (Ty::Vec(_, t), Ty::Int(_) | Ty::F64, Val::V(v)) => { let ew = tyw(t); let mut r = v[0].term(ew); for x in &v[1..] { r = term::concat(x.term(ew), r); } Val::of(r) }
                (Ty::Vec(_, f), Ty::Vec(n2, t2), Val::V(v)) => { let ew = tyw(f); let mut r = v[0].term(ew); for x in &v[1..] { r = term::concat(x.term(ew), r); } let w2 = tyw(t2); Val::V(Rc::new((0..*n2 as u32).map(|i| Val::of(term::extract(r, i * w2, w2))).collect())) }
                (_, Ty::Vec(n, t), _) => { let w2 = tyw(t); let r = a.term(wf); Val::V(Rc::new((0..*n as u32).map(|i| Val::of(term::extract(r, i * w2, w2))).collect())) }
                (Ty::F64, Ty::Int(_), Val::F(f)) => Val::T(term::fbits(*f)),
                (Ty::Int(_), Ty::F64, Val::T(t)) => match term::node(*t) { N::FBits(f) => Val::F(*f), _ => a.clone() },
                _ => a.clone(),
            },
            CastOp::UiToFp | CastOp::SiToFp => {
                let sg = op == CastOp::SiToFp;
                match a {
                    Val::C(x) => Val::C(if sg { (term::sx(*x as u128, wf) as i64) as f64 } else { *x as f64 }.to_bits()),
                    Val::W(x) => Val::C(if sg { *x as i128 as f64 } else { *x as f64 }.to_bits()),
                    Val::U => Val::C(0),
                    _ => { let t = st.rewrite(a.term(wf)); if let Some(k) = term::as_k(t) { return Ok(Val::C(if sg { term::sx(k, wf) as f64 } else { k as f64 }.to_bits())); } Val::of(term::fp(if sg { FOp::FromS } else { FOp::FromU }, vec![t], 64)) }
                }
            }
            CastOp::FpToUi | CastOp::FpToSi => {
                let o = if op == CastOp::FpToSi { FOp::ToS } else { FOp::ToU };
                match fval(a, &st.fx) { FV::C(c) => Val::C(term::eval_fp(o, &[c.to_bits() as u128], 64, wt).unwrap() as u64), FV::T(t) => Val::of(term::fp(o, vec![t], wt)), FV::P(_) => return crate::prims::toint(a, wt, op == CastOp::FpToSi, st) }
            }
            // the rounding of a real to single precision is not modelled
            CastOp::FpExt | CastOp::FpTrunc => match fval(a, &st.fx) { FV::P(p) => fv_out(p), FV::C(_) if op == CastOp::FpTrunc => a.clone(), _ => return Err(Stop::Unsup("f32".into())) },
        })
    }
}
fn asm(s: &str, a: &[Val]) -> X<Val> {
    if s.starts_with("div ") && a.len() == 3 {
        let g = |v: &Val| match v { Val::C(x) => Some(*x), _ => None };
        if let (Some(d), Some(lo), Some(hi)) = (g(&a[0]), g(&a[1]), g(&a[2])) {
            // outputs: {dx} remainder, {ax} quotient; inputs tied: 0 -> dx (high), 1 -> ax (low)
            let (hi2, lo2) = (lo, hi);
            let n = ((hi2 as u128) << 64) | lo2 as u128;
            if d == 0 { return Err(Stop::Unsup("division by zero".into())); }
            return Ok(Val::V(Rc::new(vec![Val::C((n % d as u128) as u64), Val::C((n / d as u128) as u64)])));
        }
        let (d, h, l) = (a[0].term(64), a[1].term(64), a[2].term(64));
        let n = term::concat(h, l);
        let d = term::zext(d, 128);
        return Ok(Val::V(Rc::new(vec![Val::of(term::extract(term::bin(BOp::URem, n, d), 0, 64)), Val::of(term::extract(term::bin(BOp::UDiv, n, d), 0, 64))])));
    }
    if s.starts_with('|') { return Ok(a.first().cloned().unwrap_or(Val::U)); }
    Err(Stop::Unsup(format!("asm {}", s)))
}
pub fn demangle(n: &str) -> String {
    // readable tail of a v0 name: the identifiers it contains
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut k = 0usize;
            while j < b.len() && b[j].is_ascii_digit() { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k > 0 && k < 80 && j + k <= b.len() && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_') { out.push(n[j..j + k].to_string()); i = j + k; continue; }
        }
        i += 1;
    }
    out.join("::")
}
