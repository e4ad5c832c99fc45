//! A z3 process driven over SMT-LIB2 pipes.
use crate::term::{self, BOp, COp, FOp, N, T};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum R { Sat, Unsat, Unknown }

pub struct Solver {
    _child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    defined: HashSet<T>,
    ufdecl: HashSet<u32>,
    vars: Vec<u32>,
    stack: Vec<T>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub secs: f64,
    pub timeout_ms: u32,
    pub errors: u64,
    pub slowest: f64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        let prog = std::env::var("SYMEX_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut c = Command::new(prog).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        let mut s = Solver { inp: c.stdin.take().unwrap(), out: BufReader::new(c.stdout.take().unwrap()), _child: c, defined: HashSet::new(), ufdecl: HashSet::new(), vars: vec![], stack: vec![], queries: 0, sat: 0, unsat: 0, unknown: 0, secs: 0.0, timeout_ms, errors: 0, slowest: 0.0 };
        s.send(&format!("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout {})\n", timeout_ms));
        s
    }
    fn send(&mut self, x: &str) { if std::env::var("SYMEX_SMTLOG").is_ok() { eprintln!("SMT> {}", x); } self.inp.write_all(x.as_bytes()).expect("solver pipe"); }
    fn line(&mut self) -> String { let mut s = String::new(); self.out.read_line(&mut s).expect("solver pipe"); s.trim().to_string() }
    fn def(&mut self, t: T) {
        let mut todo = vec![(t, false)];
        while let Some((t, done)) = todo.pop() {
            if self.defined.contains(&t) || matches!(term::node(t), N::K(_)) { continue; }
            if !done { todo.push((t, true)); for c in term::children(t) { todo.push((c, false)); } continue; }
            self.defined.insert(t);
            let w = term::width(t);
            let r = |x: T| name(x);
            let d = match term::node(t).clone() {
                N::Var(i) => { self.vars.push(i); format!("(declare-const t{} (_ BitVec {}))\n", t, w) }
                N::FBits(_) | N::RLit(_) => format!("(declare-const t{} (_ BitVec {}))\n", t, w),
                N::K(_) => unreachable!(),
                N::Uf(i, v) => {
                    let mut s = String::new();
                    if self.ufdecl.insert(i) { s += &format!("(declare-fun uf{} ({}) (_ BitVec {}))\n", i, v.iter().map(|x| format!("(_ BitVec {})", term::width(*x))).collect::<Vec<_>>().join(" "), w); }
                    s + &format!("(define-fun t{} () (_ BitVec {}) (uf{} {}))\n", t, w, i, v.iter().map(|x| r(*x)).collect::<Vec<_>>().join(" "))
                }
                n => {
                    let e = match n {
                        N::Bin(op, a, b) => format!("({} {} {})", match op { BOp::Add => "bvadd", BOp::Sub => "bvsub", BOp::Mul => "bvmul", BOp::UDiv => "bvudiv", BOp::SDiv => "bvsdiv", BOp::URem => "bvurem", BOp::SRem => "bvsrem", BOp::Shl => "bvshl", BOp::LShr => "bvlshr", BOp::AShr => "bvashr", BOp::And => "bvand", BOp::Or => "bvor", BOp::Xor => "bvxor" }, r(a), r(b)),
                        N::Cmp(op, a, b) => format!("(ite ({} {} {}) #b1 #b0)", match op { COp::Eq => "=", COp::Ult => "bvult", COp::Ule => "bvule", COp::Slt => "bvslt", COp::Sle => "bvsle" }, r(a), r(b)),
                        N::Zext(a) => format!("((_ zero_extend {}) {})", w - term::width(a), r(a)),
                        N::Sext(a) => format!("((_ sign_extend {}) {})", w - term::width(a), r(a)),
                        N::Extract(a, l) => format!("((_ extract {} {}) {})", l + w - 1, l, r(a)),
                        N::Concat(a, b) => format!("(concat {} {})", r(a), r(b)),
                        N::Ite(c, a, b) => format!("(ite (= {} #b1) {} {})", r(c), r(a), r(b)),
                        N::Fp(op, v) => {
                            let f = |x: T| format!("((_ to_fp 11 53) {})", r(x));
                            let f32w = term::width(v[0]);
                            let bb = |e: String| format!("(ite {} #b1 #b0)", e);
                            let inner = match op {
                                FOp::Add => format!("(fp.add RNE {} {})", f(v[0]), f(v[1])),
                                FOp::Sub => format!("(fp.sub RNE {} {})", f(v[0]), f(v[1])),
                                FOp::Mul => format!("(fp.mul RNE {} {})", f(v[0]), f(v[1])),
                                FOp::Div => format!("(fp.div RNE {} {})", f(v[0]), f(v[1])),
                                FOp::Fma => format!("(fp.fma RNE {} {} {})", f(v[0]), f(v[1]), f(v[2])),
                                FOp::Sqrt => format!("(fp.sqrt RNE {})", f(v[0])),
                                FOp::RoundEven => format!("(fp.roundToIntegral RNE {})", f(v[0])),
                                FOp::RoundAway => format!("(fp.roundToIntegral RNA {})", f(v[0])),
                                FOp::Trunc => format!("(fp.roundToIntegral RTZ {})", f(v[0])),
                                FOp::Floor => format!("(fp.roundToIntegral RTN {})", f(v[0])),
                                FOp::Ceil => format!("(fp.roundToIntegral RTP {})", f(v[0])),
                                FOp::Min => format!("(fp.min {} {})", f(v[0]), f(v[1])),
                                FOp::Max => format!("(fp.max {} {})", f(v[0]), f(v[1])),
                                FOp::FromS => format!("((_ to_fp 11 53) RNE {})", r(v[0])),
                                FOp::FromU => format!("((_ to_fp_unsigned 11 53) RNE {})", r(v[0])),
                                FOp::Abs => format!("(bvand {} #x7fffffffffffffff)", r(v[0])),
                                FOp::Neg => format!("(bvxor {} #x8000000000000000)", r(v[0])),
                                FOp::Lt => bb(format!("(fp.lt {} {})", f(v[0]), f(v[1]))),
                                FOp::Le => bb(format!("(fp.leq {} {})", f(v[0]), f(v[1]))),
                                FOp::Eq => bb(format!("(fp.eq {} {})", f(v[0]), f(v[1]))),
                                FOp::IsNan => bb(format!("(fp.isNaN {})", f(v[0]))),
                                FOp::ToS => { let mx = format!("#x{:0width$x}", term::mask(w - 1), width = w as usize / 4); let mn = format!("#x{:0width$x}", 1u128 << (w - 1), width = w as usize / 4); let h = format!("((_ to_fp 11 53) #x{:016x})", 2f64.powi(w as i32 - 1).to_bits()); let l = format!("((_ to_fp 11 53) #x{:016x})", (-2f64.powi(w as i32 - 1)).to_bits()); format!("(ite (fp.isNaN {0}) (_ bv0 {w}) (ite (fp.geq {0} {h}) {mx} (ite (fp.lt {0} {l}) {mn} ((_ fp.to_sbv {w}) RTZ {0}))))", f(v[0])) }
                                FOp::ToU => { let mx = format!("#x{:0width$x}", term::mask(w), width = w as usize / 4); let h = format!("((_ to_fp 11 53) #x{:016x})", 2f64.powi(w as i32).to_bits()); format!("(ite (or (fp.isNaN {0}) (fp.leq {0} ((_ to_fp 11 53) #x0000000000000000))) (_ bv0 {w}) (ite (fp.geq {0} {h}) {mx} ((_ fp.to_ubv {w}) RTZ {0})))", f(v[0])) }
                            };
                            let _ = f32w;
                            match op {
                                FOp::Lt | FOp::Le | FOp::Eq | FOp::IsNan | FOp::ToS | FOp::ToU | FOp::Abs | FOp::Neg => inner,
                                _ => format!("(fp.to_ieee_bv {})", inner),
                            }
                        }
                        _ => unreachable!(),
                    };
                    format!("(define-fun t{} () (_ BitVec {}) {})\n", t, w, e)
                }
            };
            self.send(&d);
        }
    }
    fn sync(&mut self, path: &[T]) {
        let mut c = 0;
        while c < path.len() && c < self.stack.len() && path[c] == self.stack[c] { c += 1; }
        if self.stack.len() > c { let n = self.stack.len() - c; self.send(&format!("(pop {})\n", n)); self.stack.truncate(c); }
        for t in &path[c..] {
            self.def(*t);
            self.send(&format!("(push 1)\n(assert (= {} #b1))\n", name(*t)));
            self.stack.push(*t);
        }
    }
    fn answer(&mut self) -> R {
        let t0 = Instant::now();
        let mut r = R::Unknown;
        loop {
            let l = self.line();
            match l.as_str() {
                "sat" => { r = R::Sat; break; }
                "unsat" => { r = R::Unsat; break; }
                "unknown" | "timeout" => break,
                "" => { self.errors += 1; panic!("solver process ended"); }
                x if x.starts_with("(error") => { self.errors += 1; eprintln!("solver: {}", x); }
                _ => {}
            }
        }
        let d = t0.elapsed().as_secs_f64();
        self.secs += d;
        if d > self.slowest { self.slowest = d; }
        self.queries += 1;
        match r { R::Sat => self.sat += 1, R::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        if self.errors > 0 { R::Unknown } else { r }
    }
    /// satisfiability of path and extra; on Sat the model over all declared variables
    pub fn check(&mut self, path: &[T], extra: T) -> (R, HashMap<u32, u128>) {
        if term::as_k(extra) == Some(0) { return (R::Unsat, HashMap::new()); }
        self.sync(path);
        self.def(extra);
        self.send(&format!("(push 1)\n(assert (= {} #b1))\n(check-sat)\n", name(extra)));
        let r = self.answer();
        let mut m = HashMap::new();
        if r == R::Sat && !self.vars.is_empty() {
            let vs = self.vars.clone();
            let names: Vec<String> = vs.iter().map(|i| format!("t{}", term::var_by_index(*i))).collect();
            self.send(&format!("(get-value ({}))\n", names.join(" ")));
            let mut txt = String::new();
            let (mut d, mut started) = (0i32, false);
            while !started || d > 0 {
                let l = self.line();
                for c in l.chars() { if c == '(' { d += 1; started = true; } if c == ')' { d -= 1; } }
                txt += &l;
                txt.push(' ');
                if l.is_empty() { break; }
            }
            let toks: Vec<String> = txt.replace('(', " ").replace(')', " ").split_whitespace().map(|s| s.to_string()).collect();
            let mut i = 0;
            while i + 1 < toks.len() {
                if let Some(id) = toks[i].strip_prefix('t').and_then(|x| x.parse::<T>().ok()) {
                    let v = &toks[i + 1];
                    let val = if let Some(h) = v.strip_prefix("#x") { u128::from_str_radix(h, 16).unwrap() } else if let Some(b) = v.strip_prefix("#b") { u128::from_str_radix(b, 2).unwrap() } else { 0 };
                    if let N::Var(ix) = term::node(id) { m.insert(*ix, val); }
                }
                i += 2;
            }
        }
        self.send("(pop 1)\n");
        (r, m)
    }
}
fn name(t: T) -> String { match term::node(t) { N::K(v) => { let w = term::width(t); if w % 4 == 0 { format!("#x{:0n$x}", v, n = w as usize / 4) } else { format!("#b{:0n$b}", v, n = w as usize) } } _ => format!("t{}", t) } }

/// A second process for real-arithmetic scripts.
pub struct RealSolver { inp: ChildStdin, out: BufReader<ChildStdout>, child: Child, pub queries: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub secs: f64, pub errors: u64, timeout_ms: u32 }
impl RealSolver {
    pub fn new(timeout_ms: u32) -> RealSolver {
        let prog = std::env::var("SYMEX_Z3").unwrap_or_else(|_| "z3-new".into());
        let mut c = Command::new(prog).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("z3-new");
        let mut s = RealSolver { inp: c.stdin.take().unwrap(), out: BufReader::new(c.stdout.take().unwrap()), child: c, queries: 0, unsat: 0, sat: 0, unknown: 0, secs: 0.0, errors: 0, timeout_ms };
        let t = s.timeout_ms;
        s.send(&format!("(set-option :timeout {})\n", t));
        s
    }
    fn send(&mut self, x: &str) { if std::env::var("SYMEX_SMTLOG").is_ok() { eprintln!("NRA> {}", x); } let _ = self.inp.write_all(x.as_bytes()); }
    pub fn check(&mut self, script: &str) -> R { self.check_ms(script, self.timeout_ms) }
    pub fn check_ms(&mut self, script: &str, ms: u32) -> R {
        let t0 = Instant::now();
        self.send(&format!("(set-option :timeout {})\n(push 1)\n{}\n(check-sat)\n(pop 1)\n", ms, script));
        let mut r = R::Unknown;
        let mut err = false;
        loop {
            let mut l = String::new();
            if self.out.read_line(&mut l).unwrap_or(0) == 0 { self.errors += 1; break; }
            match l.trim() { "sat" => { r = R::Sat; break; } "unsat" => { r = R::Unsat; break; } "unknown" | "timeout" => break, x if x.starts_with("(error") => { err = true; eprintln!("solver: {}", x); } _ => {} }
        }
        self.secs += t0.elapsed().as_secs_f64();
        self.queries += 1;
        if err { self.errors += 1; r = R::Unknown; }
        match r { R::Sat => self.sat += 1, R::Unsat => self.unsat += 1, _ => self.unknown += 1 }
        r
    }
}
impl Drop for RealSolver { fn drop(&mut self) { let _ = self.child.kill(); } }
