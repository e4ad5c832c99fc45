//! LLVM IR (textual) parser: just the subset rustc emits after fat LTO.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F64,
    F32,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                if b <= 1 { b } else { b.next_power_of_two() }
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(1) => (n + 7) / 8,
                _ => n * t.size(),
            },
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(_) => self.size().max(1).min(16),
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }
            }
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field_off of {:?}", self),
        }
    }
}

/// Constant expression, resolved to a value at load time.
#[derive(Clone, Debug)]
pub enum Cst {
    Int(u128),
    F64(u64),
    Null,
    Undef,
    Zero,
    Global(String),
    Agg(Vec<(Ty, Cst)>),
    Bytes(Vec<u8>),
    Add(Box<Cst>, Box<Cst>),
    Sub(Box<Cst>, Box<Cst>),
    Trunc(Box<Cst>, u32),
    Off(Box<Cst>, i64),
}

#[derive(Clone, Debug)]
pub enum Opd {
    Reg(u32),
    K(u32),
    Cst(Ty, Rc<Cst>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FPred { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp { Trunc, Zext, Sext, PtrToInt, IntToPtr, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Clone, Debug)]
pub enum Ins {
    Bin(BinOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(FPred, Ty, Opd, Opd),
    Select(Ty, Opd, Opd, Opd, bool),
    Cast(CastOp, Ty, Opd, Ty),
    Gep(Opd, i64, Vec<(Ty, Opd, i64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64, Opd, u64),
    Call { callee: Callee, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    ExtractValue(Ty, Opd, Vec<u32>),
    InsertValue(Ty, Opd, Ty, Opd, Vec<u32>),
    ExtractElement(Ty, Opd, Opd),
    InsertElement(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<i64>),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Fence,
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Ty, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    LandingPad,
    Resume,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub enum Callee { Direct(String), Indirect(Opd), Asm(String), Id(u32) }

#[derive(Debug)]
pub struct Instr { pub dst: u32, pub ins: Ins, pub dbg: u32 }
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Ty, Vec<(u32, Opd)>)>, pub instrs: Vec<Instr> }

#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<(Ty, u32)>, pub byval: Vec<Option<u64>>, pub nregs: u32, pub blocks: Vec<Block>, pub dbg: u32, pub id: usize }

pub struct Global { pub name: String, pub ty: Ty, pub init: Option<Cst>, pub align: u64, pub constant: bool, pub tls: bool }

pub struct Module {
    pub globals: Vec<Global>,
    pub fn_src: HashMap<String, (usize, usize)>, // line range (define line .. closing)
    pub fn_order: Vec<String>,
    pub decls: Vec<String>,
    pub aliases: HashMap<String, String>,
    pub lines: Vec<&'static str>,
    pub types: HashMap<String, Ty>,
    pub md: HashMap<u32, usize>, // metadata id -> line idx
}

pub struct Lex<'a> { pub s: &'a [u8], pub p: usize }

fn is_id(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self { Lex { s: s.as_bytes(), p: 0 } }
    pub fn ws(&mut self) { while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') { self.p += 1; } }
    pub fn peek(&mut self) -> u8 { self.ws(); if self.p < self.s.len() { self.s[self.p] } else { 0 } }
    pub fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            // keyword boundary
            let e = self.p + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if is_id(last) && e < self.s.len() && is_id(self.s[e]) { return false; }
            self.p = e;
            true
        } else { false }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) { panic!("expected {:?} at {:?} in {:?}", t, self.rest(), std::str::from_utf8(self.s).unwrap_or("?")); }
    }
    pub fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..]).to_string() }
    pub fn word(&mut self) -> String {
        self.ws();
        let b = self.p;
        while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
        String::from_utf8_lossy(&self.s[b..self.p]).to_string()
    }
    /// after '%' or '@': identifier
    pub fn ident(&mut self) -> String {
        if self.s[self.p] == b'"' {
            self.p += 1;
            let b = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[b..self.p]).to_string();
            self.p += 1;
            r
        } else {
            let b = self.p;
            while self.p < self.s.len() && is_id(self.s[self.p]) { self.p += 1; }
            String::from_utf8_lossy(&self.s[b..self.p]).to_string()
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        let mut q = false;
        while self.p < self.s.len() {
            let c = self.s[self.p];
            self.p += 1;
            if c == b'"' { q = !q; }
            if q { continue; }
            if c == b'(' { d += 1; }
            if c == b')' { d -= 1; if d == 0 { return; } }
        }
    }
    pub fn quoted(&mut self) -> String {
        self.ws();
        assert!(self.s[self.p] == b'"', "quoted at {}", self.rest());
        self.p += 1;
        let b = self.p;
        while self.s[self.p] != b'"' { self.p += 1; }
        let r = String::from_utf8_lossy(&self.s[b..self.p]).to_string();
        self.p += 1;
        r
    }
}

impl Module {
    pub fn ty(&self, l: &mut Lex) -> Ty {
        let c = l.peek();
        let t = match c {
            b'[' => {
                l.expect("[");
                let n: u64 = l.word().parse().unwrap();
                l.expect("x");
                let t = self.ty(l);
                l.expect("]");
                Ty::Arr(n, Rc::new(t))
            }
            b'{' => { l.expect("{"); let f = self.tylist(l, "}"); Ty::Struct(Rc::new(f), false) }
            b'<' => {
                l.expect("<");
                if l.peek() == b'{' {
                    l.expect("{");
                    let f = self.tylist(l, "}");
                    l.expect(">");
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n: u64 = l.word().parse().unwrap();
                    l.expect("x");
                    let t = self.ty(l);
                    l.expect(">");
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => { l.p += 1; let n = l.ident(); self.types.get(&n).cloned().unwrap_or(Ty::Other) }
            _ => {
                let save = l.p;
                let w = l.word();
                match w.as_str() {
                    "void" => Ty::Void,
                    "ptr" => { if l.eat("addrspace") { l.ws(); l.skip_parens(); } Ty::Ptr }
                    "double" => Ty::F64,
                    "float" => Ty::F32,
                    "metadata" | "label" | "token" | "half" | "x86_fp80" | "fp128" | "opaque" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => { l.p = save; panic!("type? {:?} in {:?}", l.rest(), String::from_utf8_lossy(l.s)) }
                }
            }
        };
        // function type? "void (ptr, ...)": treat as the return type, skipping the list
        if l.p < l.s.len() && l.s[l.p] == b' ' && l.p + 1 < l.s.len() && l.s[l.p + 1] == b'(' && !matches!(t, Ty::Other) {
            // only in call with explicit fn type (varargs); caller handles
        }
        t
    }
    fn tylist(&self, l: &mut Lex, end: &str) -> Vec<Ty> {
        let mut v = vec![];
        if l.eat(end) { return v; }
        loop {
            v.push(self.ty(l));
            if l.eat(end) { return v; }
            l.expect(",");
        }
    }
    pub fn cst(&self, l: &mut Lex, ty: &Ty) -> Cst {
        match l.peek() {
            b'@' => { l.p += 1; Cst::Global(l.ident()) }
            b'c' if l.s.get(l.p + 1) == Some(&b'"') => { l.p += 1; Cst::Bytes(cstr(l)) }
            b'[' => { l.expect("["); self.csts(l, "]") }
            b'{' => { l.expect("{"); self.csts(l, "}") }
            b'<' => {
                l.expect("<");
                if l.eat("{") { let r = self.csts(l, "}"); l.expect(">"); r } else { self.csts(l, ">") }
            }
            _ => {
                let w = l.word();
                match w.as_str() {
                    "null" => Cst::Null,
                    "true" => Cst::Int(1),
                    "false" => Cst::Int(0),
                    "undef" | "poison" => Cst::Undef,
                    "zeroinitializer" | "none" => Cst::Zero,
                    "getelementptr" => {
                        while matches!(l.peek(), b'i' | b'n') {
                            let save = l.p;
                            let k = l.word();
                            if k == "inbounds" || k == "nuw" || k == "nusw" { continue; }
                            if k.starts_with("inrange") { l.skip_parens(); continue; }
                            l.p = save;
                            break;
                        }
                        l.expect("(");
                        let t = self.ty(l);
                        l.expect(",");
                        let bt = self.ty(l);
                        let b = self.cst(l, &bt);
                        let mut off = 0i64;
                        let mut cur = t;
                        let mut first = true;
                        while l.eat(",") {
                            l.eat("inrange");
                            let it = self.ty(l);
                            let i = match self.cst(l, &it) { Cst::Int(v) => v as u64 as i64, Cst::Zero => 0, x => panic!("gep cst idx {:?}", x) };
                            let i = match it { Ty::Int(32) => i as i32 as i64, _ => i };
                            if first { off += i * cur.size() as i64; first = false; } else { let (o, t2) = cur.field_off(i as usize); off += o as i64; cur = t2; }
                        }
                        l.expect(")");
                        Cst::Off(Box::new(b), off)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                        l.expect("(");
                        let t = self.ty(l);
                        let c = self.cst(l, &t);
                        l.expect("to");
                        self.ty(l);
                        l.expect(")");
                        c
                    }
                    "trunc" => {
                        l.expect("(");
                        let t = self.ty(l);
                        let c = self.cst(l, &t);
                        l.expect("to");
                        let t2 = self.ty(l);
                        l.expect(")");
                        Cst::Trunc(Box::new(c), match t2 { Ty::Int(w) => w, _ => 64 })
                    }
                    "add" | "sub" => {
                        loop { if !(l.eat("nuw") || l.eat("nsw")) { break; } }
                        l.expect("(");
                        let t = self.ty(l);
                        let a = self.cst(l, &t);
                        l.expect(",");
                        let t = self.ty(l);
                        let b = self.cst(l, &t);
                        l.expect(")");
                        if w == "add" { Cst::Add(Box::new(a), Box::new(b)) } else { Cst::Sub(Box::new(a), Box::new(b)) }
                    }
                    "splat" => {
                        l.expect("(");
                        let t = self.ty(l);
                        let c = self.cst(l, &t);
                        l.expect(")");
                        let n = match ty { Ty::Vec(n, _) => *n, _ => panic!("splat") };
                        Cst::Agg((0..n).map(|_| (t.clone(), c.clone())).collect())
                    }
                    _ => {
                        // number
                        if matches!(ty, Ty::F64 | Ty::F32) {
                            let mut w = w;
                            if l.p < l.s.len() && l.s[l.p] == b'+' { l.p += 1; w = w + "+" + &l.word(); }
                            if let Some(h) = w.strip_prefix("f0x").or(w.strip_prefix("0x")) { Cst::F64(u64::from_str_radix(h, 16).unwrap()) }
                            else if w.is_empty() || w == "+" || w == "-" { panic!("float literal near {:?}", l.rest()) }
                            else if w.ends_with("inf") { Cst::F64(if w.starts_with('-') { f64::NEG_INFINITY } else { f64::INFINITY }.to_bits()) }
                            else if w.contains("nan") { Cst::F64(if w.starts_with('-') { 0xfff8_0000_0000_0000 } else { 0x7ff8_0000_0000_0000 }) }
                            else { Cst::F64(w.parse::<f64>().unwrap_or_else(|_| panic!("float {:?}", w)).to_bits()) }
                        } else if let Some(n) = w.strip_prefix('-') {
                            let v = n.parse::<u128>().unwrap_or_else(|_| panic!("int {:?} in {:?}", w, String::from_utf8_lossy(l.s)));
                            Cst::Int(mask(v.wrapping_neg(), match ty { Ty::Int(w) => *w, _ => 64 }))
                        } else {
                            Cst::Int(w.parse::<u128>().unwrap_or_else(|_| panic!("int {:?} rest {:?} in {:?}", w, l.rest(), String::from_utf8_lossy(l.s))))
                        }
                    }
                }
            }
        }
    }
    fn csts(&self, l: &mut Lex, end: &str) -> Cst {
        let mut v = vec![];
        if l.eat(end) { return Cst::Agg(v); }
        loop {
            let t = self.ty(l);
            let c = self.cst(l, &t);
            v.push((t, c));
            if l.eat(end) { return Cst::Agg(v); }
            l.expect(",");
        }
    }

    pub fn load(text: &'static str) -> Module {
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module { globals: vec![], fn_src: HashMap::new(), fn_order: vec![], decls: vec![], aliases: HashMap::new(), lines: vec![], types: HashMap::new(), md: HashMap::new() };
        let mut i = 0;
        while i < lines.len() {
            let ln = lines[i];
            if ln.starts_with("define ") {
                let at = ln.find('@').unwrap();
                let mut l = Lex::new(ln);
                l.p = at + 1;
                let name = l.ident();
                let b = i;
                while lines[i] != "}" { i += 1; }
                m.fn_order.push(name.clone());
                m.fn_src.insert(name, (b, i));
            } else if ln.starts_with("declare ") {
                let at = ln.find('@').unwrap();
                let mut l = Lex::new(ln);
                l.p = at + 1;
                m.decls.push(l.ident());
            } else if ln.starts_with('%') {
                let mut l = Lex::new(ln);
                l.p = 1;
                let n = l.ident();
                l.expect("=");
                l.expect("type");
                let t = m.ty(&mut l);
                m.types.insert(n, t);
            } else if ln.starts_with('!') {
                let e = ln.find(' ').unwrap_or(1);
                if let Ok(id) = ln[1..e].parse::<u32>() { m.md.insert(id, i); }
            } else if ln.starts_with('@') {
                m.global(ln);
            }
            i += 1;
        }
        m.lines = lines;
        m
    }
    fn global(&mut self, ln: &'static str) {
        let mut l = Lex::new(ln);
        l.p = 1;
        let name = l.ident();
        l.expect("=");
        let mut constant = false;
        let mut tls = false;
        let mut external = false;
        loop {
            let save = l.p;
            if !l.peek().is_ascii_alphabetic() { break; }
            let w = l.word();
            match w.as_str() {
                "private" | "internal" | "hidden" | "protected" | "default" | "unnamed_addr" | "local_unnamed_addr" | "weak" | "weak_odr" | "linkonce_odr" | "linkonce" | "dso_local" | "common" | "appending" | "available_externally" => {}
                "external" | "extern_weak" => external = true,
                "thread_local" => { tls = true; if l.peek() == b'(' { l.skip_parens(); } }
                "constant" => { constant = true; break; }
                "global" => break,
                "alias" => {
                    self.ty(&mut l);
                    if l.peek() == b'(' { l.skip_parens(); }
                    l.expect(",");
                    self.ty(&mut l);
                    l.ws();
                    if l.peek() == b'@' { l.p += 1; let t = l.ident(); self.aliases.insert(name, t); }
                    return;
                }
                "ifunc" => return,
                "addrspace" => { l.ws(); l.skip_parens(); }
                _ => { l.p = save; break; }
            }
        }
        let ty = self.ty(&mut l);
        let init = if external || l.peek() == b',' || l.peek() == 0 { None } else { Some(self.cst(&mut l, &ty)) };
        let align = ln.rfind(", align ").and_then(|p| { let r = &ln[p + 8..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().ok() }).unwrap_or(1);
        self.globals.push(Global { name, ty, init, align, constant, tls });
    }

    pub fn compile(&self, name: &str, id: usize) -> Func {
        let (b, e) = self.fn_src[name];
        FnParser { m: self, regs: HashMap::new(), labels: HashMap::new() }.parse(name, b, e, id)
    }
}

pub fn mask(v: u128, w: u32) -> u128 { if w >= 128 { v } else { v & ((1u128 << w) - 1) } }

fn cstr(l: &mut Lex) -> Vec<u8> {
    assert!(l.s[l.p] == b'"');
    l.p += 1;
    let mut v = vec![];
    while l.s[l.p] != b'"' {
        if l.s[l.p] == b'\\' {
            if l.s[l.p + 1] == b'\\' { v.push(b'\\'); l.p += 2; continue; }
            let h = std::str::from_utf8(&l.s[l.p + 1..l.p + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            l.p += 3;
        } else { v.push(l.s[l.p]); l.p += 1; }
    }
    l.p += 1;
    v
}

struct FnParser<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32> }

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: String) -> u32 { let k = self.regs.len() as u32; *self.regs.entry(n).or_insert(k) }
    fn opd(&mut self, l: &mut Lex, ty: &Ty) -> Opd {
        if l.peek() == b'%' { l.p += 1; let n = l.ident(); Opd::Reg(self.reg(n)) }
        else if l.peek() == b'!' || matches!(ty, Ty::Other) {
            // metadata operand: skip to , or ) at depth 0
            let mut d = 0;
            while l.p < l.s.len() {
                let c = l.s[l.p];
                if c == b'(' || c == b'{' { d += 1; }
                if c == b')' || c == b'}' { if d == 0 { break; } d -= 1; }
                if c == b',' && d == 0 { break; }
                l.p += 1;
            }
            Opd::Cst(Ty::Other, Rc::new(Cst::Undef))
        } else { let c = self.m.cst(l, ty); Opd::Cst(ty.clone(), Rc::new(c)) }
    }
    fn topd(&mut self, l: &mut Lex) -> (Ty, Opd) { let t = self.m.ty(l); self.attrs(l); let o = self.opd(l, &t); (t, o) }
    fn label(&mut self, l: &mut Lex) -> u32 {
        l.expect("label");
        l.ws();
        assert!(l.s[l.p] == b'%');
        l.p += 1;
        let n = l.ident();
        *self.labels.get(&n).unwrap_or_else(|| panic!("label {}", n))
    }
    /// skip parameter attributes; returns byval size
    fn attrs(&mut self, l: &mut Lex) -> Option<u64> {
        let mut bv = None;
        loop {
            let c = l.peek();
            if c == b'"' { l.quoted(); if l.peek() == b'=' { l.p += 1; l.quoted(); } continue; }
            if c == b'#' { l.p += 1; l.word(); continue; }
            if !c.is_ascii_lowercase() { break; }
            let save = l.p;
            let w = l.word();
            match w.as_str() {
                "noundef" | "nonnull" | "noalias" | "nocapture" | "readonly" | "readnone" | "writeonly" | "signext" | "zeroext" | "inreg" | "immarg" | "returned" | "nofree" | "nest" | "writable" | "dead_on_unwind" | "dead_on_return" | "noext" | "swiftself" | "allocptr" | "allocalign" => {
                    if w == "dead_on_return" && l.p < l.s.len() && l.s[l.p] == b'(' { l.skip_parens(); }
                }
                "align" => { if l.peek() == b'(' { l.skip_parens(); } else { l.word(); } }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "initializes" | "nofpclass" | "elementtype" | "inalloca" | "preallocated" | "memory" => { l.ws(); l.skip_parens(); }
                "byval" | "sret" | "byref" => {
                    l.expect("(");
                    let t = self.m.ty(l);
                    l.expect(")");
                    if w == "byval" { bv = Some(t.size()); }
                }
                _ => { l.p = save; break; }
            }
        }
        bv
    }
    fn parse(mut self, name: &str, b: usize, e: usize, id: usize) -> Func {
        let m = self.m;
        let head = m.lines[b];
        let at = head.find('@').unwrap();
        let mut l = Lex::new(head);
        l.p = at + 1;
        l.ident();
        l.expect("(");
        let mut params = vec![];
        let mut byval = vec![];
        let mut n = 0;
        if !l.eat(")") {
            loop {
                if l.eat("...") { l.expect(")"); break; }
                let t = m.ty(&mut l);
                let bv = self.attrs(&mut l);
                let nm = if l.peek() == b'%' { l.p += 1; l.ident() } else { let s = n.to_string(); s };
                if nm == n.to_string() { n += 1; }
                let r = self.reg(nm);
                params.push((t, r));
                byval.push(bv);
                if l.eat(")") { break; }
                l.expect(",");
            }
        }
        let dbg = dbg_of(head);
        // labels
        let mut nb = 0u32;
        let mut first = true;
        for ln in &m.lines[b + 1..e] {
            if ln.is_empty() || ln.starts_with(';') { continue; }
            if !ln.starts_with(' ') {
                let mut l = Lex::new(ln);
                let lab = if l.peek() == b'"' { l.quoted() } else { l.word() };
                self.labels.insert(lab, nb);
                nb += 1;
                first = false;
            } else if first {
                // unnamed entry block
                let lab = n.to_string();
                self.labels.insert(lab, nb);
                nb += 1;
                first = false;
            }
        }
        let mut blocks: Vec<Block> = vec![];
        let mut i = b + 1;
        let mut started = false;
        while i < e {
            let ln = m.lines[i];
            i += 1;
            if ln.is_empty() || ln.starts_with(';') { continue; }
            if !ln.starts_with(' ') { blocks.push(Block { phis: vec![], instrs: vec![] }); started = true; continue; }
            if !started { blocks.push(Block { phis: vec![], instrs: vec![] }); started = true; }
            let t = ln.trim_start();
            if t.starts_with(';') { continue; }
            if t.starts_with("#dbg_") { continue; }
            // join multi-line constructs (switch, landingpad, invoke)
            let mut buf = String::new();
            let mut txt: &str = t;
            if t.starts_with("switch ") && !t.contains(']') {
                buf.push_str(t);
                while !m.lines[i].trim_start().starts_with(']') { buf.push(' '); buf.push_str(m.lines[i].trim()); i += 1; }
                buf.push(' ');
                buf.push_str(m.lines[i].trim());
                i += 1;
                txt = &buf;
            } else if (t.starts_with("invoke ") || t.contains("= invoke ")) && !t.contains(" unwind label ") {
                buf.push_str(t);
                buf.push(' ');
                buf.push_str(m.lines[i].trim());
                i += 1;
                txt = &buf;
            } else if t.contains("= landingpad ") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") {
                if t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") { continue; }
            }
            let r = self.instr(txt, blocks.last_mut().unwrap());
            if let Some(ins) = r { blocks.last_mut().unwrap().instrs.push(ins); }
        }
        Func { name: name.to_string(), params, byval, nregs: self.regs.len() as u32, blocks, dbg, id }
    }

    fn instr(&mut self, t: &str, blk: &mut Block) -> Option<Instr> {
        let m = self.m;
        let dbg = dbg_of(t);
        let mut l = Lex::new(t);
        let mut dst = NODST;
        if l.peek() == b'%' {
            l.p += 1;
            let n = l.ident();
            dst = self.reg(n);
            l.expect("=");
        }
        let mut w = l.word();
        while w == "tail" || w == "musttail" || w == "notail" { w = l.word(); }
        let ins = match w.as_str() {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                loop {
                    let save = l.p;
                    let k = l.word();
                    if matches!(k.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { continue; }
                    l.p = save;
                    break;
                }
                let op = match w.as_str() {
                    "add" => BinOp::Add, "sub" => BinOp::Sub, "mul" => BinOp::Mul, "udiv" => BinOp::UDiv, "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem, "srem" => BinOp::SRem, "shl" => BinOp::Shl, "lshr" => BinOp::LShr, "ashr" => BinOp::AShr,
                    "and" => BinOp::And, "or" => BinOp::Or, "xor" => BinOp::Xor, "fadd" => BinOp::FAdd, "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul, "fdiv" => BinOp::FDiv, _ => BinOp::FRem,
                };
                let ty = m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(",");
                let b = self.opd(&mut l, &ty);
                Ins::Bin(op, ty, a, b)
            }
            "fneg" => { skip_fmf(&mut l); let ty = m.ty(&mut l); let a = self.opd(&mut l, &ty); Ins::FNeg(ty, a) }
            "icmp" => {
                l.eat("samesign");
                let p = match l.word().as_str() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {}", x) };
                let ty = m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(",");
                let b = self.opd(&mut l, &ty);
                Ins::ICmp(p, ty, a, b)
            }
            "fcmp" => {
                skip_fmf(&mut l);
                let p = match l.word().as_str() { "false" => FPred::False, "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, x => panic!("fcmp {}", x) };
                let ty = m.ty(&mut l);
                let a = self.opd(&mut l, &ty);
                l.expect(",");
                let b = self.opd(&mut l, &ty);
                Ins::FCmp(p, ty, a, b)
            }
            "select" => {
                skip_fmf(&mut l);
                let (ct, c) = self.topd(&mut l);
                l.expect(",");
                let (ty, a) = self.topd(&mut l);
                l.expect(",");
                let (_, b) = self.topd(&mut l);
                Ins::Select(ty, c, a, b, matches!(ct, Ty::Vec(..)))
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
                loop { if !(l.eat("nneg") || l.eat("nuw") || l.eat("nsw")) { break; } }
                skip_fmf(&mut l);
                let (ty, a) = self.topd(&mut l);
                l.expect("to");
                let t2 = m.ty(&mut l);
                let op = match w.as_str() { "trunc" => CastOp::Trunc, "zext" => CastOp::Zext, "sext" => CastOp::Sext, "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt, "inttoptr" => CastOp::IntToPtr, "bitcast" | "addrspacecast" => CastOp::Bitcast, "uitofp" => CastOp::UiToFp, "sitofp" => CastOp::SiToFp, "fptoui" => CastOp::FpToUi, "fptosi" => CastOp::FpToSi, "fpext" => CastOp::FpExt, _ => CastOp::FpTrunc };
                Ins::Cast(op, ty, a, t2)
            }
            "getelementptr" => {
                loop { if !(l.eat("inbounds") || l.eat("nuw") || l.eat("nusw")) { break; } }
                let mut cur = m.ty(&mut l);
                l.expect(",");
                let (bt, base) = self.topd(&mut l);
                if matches!(bt, Ty::Vec(..)) { return Some(Instr { dst, ins: Ins::Unsupported(t.to_string()), dbg }); }
                let mut off = 0i64;
                let mut dynix = vec![];
                let mut first = true;
                while l.eat(",") {
                    if l.peek() == b'!' { break; }
                    let (it, ix) = self.topd(&mut l);
                    let (scale, next) = if first { (cur.size() as i64, None) } else {
                        match &cur { Ty::Arr(_, e) | Ty::Vec(_, e) => (e.size() as i64, Some((**e).clone())), _ => (0, None) }
                    };
                    let cv = match &ix { Opd::Cst(_, c) => match &**c { Cst::Int(v) => Some(sx(*v, &it)), Cst::Zero => Some(0), _ => None }, _ => None };
                    if !first && matches!(cur, Ty::Struct(..)) {
                        let (o, t2) = cur.field_off(cv.unwrap() as usize);
                        off += o as i64;
                        cur = t2;
                    } else {
                        if let Some(v) = cv { off = off.wrapping_add(v.wrapping_mul(scale)); } else { dynix.push((it, ix, scale)); }
                        if let Some(n) = next { cur = n; }
                    }
                    first = false;
                }
                Ins::Gep(base, off, dynix)
            }
            "load" => {
                loop { if !(l.eat("atomic") || l.eat("volatile")) { break; } }
                let ty = m.ty(&mut l);
                l.expect(",");
                let (_, p) = self.topd(&mut l);
                Ins::Load(ty, p)
            }
            "store" => {
                loop { if !(l.eat("atomic") || l.eat("volatile")) { break; } }
                let (ty, v) = self.topd(&mut l);
                l.expect(",");
                let (_, p) = self.topd(&mut l);
                Ins::Store(ty, v, p)
            }
            "alloca" => {
                l.eat("inalloca");
                let ty = m.ty(&mut l);
                let mut cnt = Opd::Cst(Ty::Int(64), Rc::new(Cst::Int(1)));
                let mut align = ty.align();
                while l.eat(",") {
                    if l.eat("align") { align = l.word().parse().unwrap(); }
                    else if l.peek() == b'!' || l.peek() == b'a' { break; }
                    else { let (_, c) = self.topd(&mut l); cnt = c; }
                }
                Ins::Alloca(ty.size(), cnt, align)
            }
            "call" | "invoke" => {
                skip_fmf(&mut l);
                // calling conv + ret attrs
                loop {
                    let save = l.p;
                    self.attrs(&mut l);
                    if l.eat("fastcc") || l.eat("ccc") || l.eat("coldcc") || l.eat("preserve_mostcc") || l.eat("tailcc") || l.eat("preserve_nonecc") { continue; }
                    if l.eat("cc") { l.word(); continue; }
                    if l.p == save { break; }
                    let s2 = l.p;
                    l.ws();
                    if l.p == save || s2 == save { break; }
                }
                let ret = m.ty(&mut l);
                if l.peek() == b'(' { l.skip_parens(); }
                l.ws();
                let mut is_asm = false;
                let callee = if l.eat("asm") {
                    is_asm = true;
                    loop { if !(l.eat("sideeffect") || l.eat("alignstack") || l.eat("inteldialect") || l.eat("unwind")) { break; } }
                    let s = l.quoted();
                    l.expect(",");
                    let c = l.quoted();
                    Callee::Asm(s + "|" + &c)
                } else if l.peek() == b'@' { l.p += 1; Callee::Direct(l.ident()) }
                else if l.peek() == b'%' { l.p += 1; let n = l.ident(); Callee::Indirect(Opd::Reg(self.reg(n))) }
                else { let c = m.cst(&mut l, &Ty::Ptr); Callee::Indirect(Opd::Cst(Ty::Ptr, Rc::new(c))) };
                let _ = is_asm;
                l.expect("(");
                let mut args = vec![];
                if !l.eat(")") {
                    loop {
                        let ty = m.ty(&mut l);
                        self.attrs(&mut l);
                        let o = self.opd(&mut l, &ty);
                        args.push((ty, o));
                        if l.eat(")") { break; }
                        l.expect(",");
                    }
                }
                let mut normal = None;
                if w == "invoke" {
                    let r = l.rest();
                    let p = r.find(" to label ").expect("invoke to");
                    l.p += p + 4;
                    normal = Some(self.label(&mut l));
                }
                Ins::Call { callee, args, ret, normal }
            }
            "extractvalue" => {
                let (ty, a) = self.topd(&mut l);
                let mut ix = vec![];
                while l.eat(",") { if l.peek() == b'!' { break; } ix.push(l.word().parse().unwrap()); }
                Ins::ExtractValue(ty, a, ix)
            }
            "insertvalue" => {
                let (ty, a) = self.topd(&mut l);
                l.expect(",");
                let (vt, v) = self.topd(&mut l);
                let mut ix = vec![];
                while l.eat(",") { if l.peek() == b'!' { break; } ix.push(l.word().parse().unwrap()); }
                Ins::InsertValue(ty, a, vt, v, ix)
            }
            "extractelement" => { let (ty, a) = self.topd(&mut l); l.expect(","); let (_, i) = self.topd(&mut l); Ins::ExtractElement(ty, a, i) }
            "insertelement" => { let (ty, a) = self.topd(&mut l); l.expect(","); let (_, v) = self.topd(&mut l); l.expect(","); let (_, i) = self.topd(&mut l); Ins::InsertElement(ty, a, v, i) }
            "shufflevector" => {
                let (ty, a) = self.topd(&mut l);
                l.expect(",");
                let (_, b) = self.topd(&mut l);
                l.expect(",");
                let mt = m.ty(&mut l);
                let c = m.cst(&mut l, &mt);
                let n = match mt { Ty::Vec(n, _) => n, _ => 0 };
                let mk = match c {
                    Cst::Zero => vec![0; n as usize],
                    Cst::Undef => vec![-1; n as usize],
                    Cst::Agg(v) => v.iter().map(|(_, c)| match c { Cst::Int(v) => *v as i64, _ => -1 }).collect(),
                    _ => panic!("shuffle mask"),
                };
                Ins::Shuffle(ty, a, b, mk)
            }
            "atomicrmw" => {
                l.eat("volatile");
                let op = l.word();
                let (_, p) = self.topd(&mut l);
                l.expect(",");
                let (ty, v) = self.topd(&mut l);
                Ins::Rmw(op, ty, p, v)
            }
            "cmpxchg" => {
                loop { if !(l.eat("weak") || l.eat("volatile")) { break; } }
                let (_, p) = self.topd(&mut l);
                l.expect(",");
                let (ty, c) = self.topd(&mut l);
                l.expect(",");
                let (_, n) = self.topd(&mut l);
                Ins::CmpXchg(ty, p, c, n)
            }
            "fence" => Ins::Fence,
            "freeze" => { let (_, a) = self.topd(&mut l); Ins::Freeze(a) }
            "phi" => {
                skip_fmf(&mut l);
                let ty = m.ty(&mut l);
                let mut inc = vec![];
                loop {
                    l.expect("[");
                    let v = self.opd(&mut l, &ty);
                    l.expect(",");
                    l.ws();
                    assert!(l.s[l.p] == b'%');
                    l.p += 1;
                    let n = l.ident();
                    let lb = *self.labels.get(&n).unwrap_or_else(|| panic!("phi label {}", n));
                    l.expect("]");
                    inc.push((lb, v));
                    if !l.eat(",") { break; }
                    if l.peek() == b'!' { break; }
                }
                blk.phis.push((dst, ty, inc));
                return None;
            }
            "br" => {
                if l.peek() == b'l' { Ins::Br(self.label(&mut l)) } else {
                    let (_, c) = self.topd(&mut l);
                    l.expect(",");
                    let a = self.label(&mut l);
                    l.expect(",");
                    let b = self.label(&mut l);
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (ty, v) = self.topd(&mut l);
                l.expect(",");
                let d = self.label(&mut l);
                l.expect("[");
                let mut cs = vec![];
                while !l.eat("]") {
                    let t = m.ty(&mut l);
                    let c = match m.cst(&mut l, &t) { Cst::Int(v) => v, _ => panic!("switch") };
                    l.expect(",");
                    cs.push((c, self.label(&mut l)));
                }
                Ins::Switch(ty, v, d, cs)
            }
            "ret" => { if l.eat("void") { Ins::Ret(None) } else { let (t, v) = self.topd(&mut l); Ins::Ret(Some((t, v))) } }
            "unreachable" => Ins::Unreachable,
            "landingpad" => Ins::LandingPad,
            "resume" => Ins::Resume,
            _ => Ins::Unsupported(t.to_string()),
        };
        Some(Instr { dst, ins, dbg })
    }
}

fn sx(v: u128, t: &Ty) -> i64 { match t { Ty::Int(32) => v as u32 as i32 as i64, Ty::Int(16) => v as u16 as i16 as i64, Ty::Int(8) => v as u8 as i8 as i64, _ => v as u64 as i64 } }
fn skip_fmf(l: &mut Lex) {
    loop {
        let save = l.p;
        let k = l.word();
        if matches!(k.as_str(), "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { continue; }
        l.p = save;
        break;
    }
}
fn dbg_of(t: &str) -> u32 {
    match t.find("!dbg !") { Some(p) => { let r = &t[p + 6..]; let e = r.find(|c: char| !c.is_ascii_digit()).unwrap_or(r.len()); r[..e].parse().unwrap_or(0) } None => 0 }
}
