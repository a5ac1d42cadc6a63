//! Parser for textual LLVM IR (the subset rustc emits).
use crate::term::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, Int(u32), F32, F64, Ptr, Arr(u64, Rc<Ty>), Vec(u32, Rc<Ty>), Struct(Vec<Rc<Ty>>, bool), Other }
pub type Tr = Rc<Ty>;
impl Ty {
    pub fn bits(&self) -> u32 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 => 64, Ty::Ptr => 64, _ => 0 } }
    pub fn is_scalar(&self) -> bool { self.bits() > 0 }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => (((*w as u64 + 7) / 8).next_power_of_two()).min(16),
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.store_size().next_power_of_two(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, _) => { let mut o = 0; for (i, t) in f.iter().enumerate() { o = self.field_off(i) + t.size(); } let a = self.align(); (o + a - 1) / a * a }
            _ => 0,
        }
    }
    pub fn size(&self) -> u64 { let s = self.store_size(); let a = self.align().max(1); (s + a - 1) / a * a }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, p) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !*p { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * ((t.bits() as u64 + 7) / 8),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Tr { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => t.clone(), _ => panic!("elem of {:?}", self) } }
    pub fn count(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
}

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(Tid), A(Rc<Vec<Val>>) }
#[derive(Clone, Debug)]
pub enum Opd { R(u32), K(Val) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, FpToSi, FpToUi, SiToFp, UiToFp, FpTrunc, FpExt, Bit }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u32, Tr, Opd, Opd),
    FRem(u32, Tr, Opd, Opd),
    ICmp(Pred, u32, Tr, Opd, Opd),
    FCmp(String, u32, Tr, Opd, Opd),
    FNeg(u32, Tr, Opd),
    Cast(Cast, u32, Tr, Tr, Opd),
    Select(u32, Tr, Tr, Opd, Opd, Opd),
    Gep(u32, Opd, i64, Vec<(Opd, u32, i64)>),
    Load(u32, Tr, Opd),
    Store(Tr, Opd, Opd),
    Alloca(u32, u64, Opd),
    Call(Option<u32>, Tr, Callee, Vec<(Tr, Opd)>, Option<u32>), // last: invoke normal dest
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Option<(Tr, Opd)>),
    Unreachable,
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, Tr, Opd, Opd, Vec<u32>),
    ExtractE(u32, Tr, Opd, Opd),
    InsertE(u32, Tr, Opd, Opd, Opd),
    Shuffle(u32, Tr, Opd, Opd, Vec<i32>),
    Rmw(String, u32, Tr, Opd, Opd),
    CmpXchg(u32, Tr, Opd, Opd, Opd),
    Move(u32, Opd),
    Nop,
    Bad(String),
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub ins: Vec<I> }
pub struct Func { pub name: String, pub pretty: String, pub params: Vec<u32>, pub nregs: u32, pub blocks: Vec<Block>, pub defined: bool, pub ret: Tr }
pub struct Global { pub name: String, pub size: u64, pub constant: bool, pub init: Option<(Tr, Val)>, pub external: bool }

pub struct Module { pub funcs: Vec<Func>, pub globals: Vec<Global>, pub fmap: HashMap<String, u32>, pub gmap: HashMap<String, u32>, types: HashMap<String, Tr>, pub funcs_len: usize }

/// objects: 1..=nfuncs are functions, then globals
pub fn addr_of_obj(id: u64) -> u128 { ((id + 1) << 32) as u128 }

struct Lx<'a> { s: &'a [u8], p: usize }
impl<'a> Lx<'a> {
    fn ws(&mut self) {
        loop {
            while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t' || self.s[self.p] == b'\n') { self.p += 1; }
            if !self.s[self.p..].starts_with(b"/*") { return; }
            while !self.s[self.p..].starts_with(b"*/") { self.p += 1; }
            self.p += 2;
        }
    }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.p).unwrap_or(&0) }
    fn eat(&mut self, c: &str) -> bool { self.ws(); if self.s[self.p..].starts_with(c.as_bytes()) { self.p += c.len(); true } else { false } }
    fn need(&mut self, c: &str) { if !self.eat(c) { panic!("expected `{}` at: {}", c, self.rest()); } }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.p.min(self.s.len())..(self.p + 160).min(self.s.len())]).into_owned() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.p;
        while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'$' | b'+')) { self.p += 1; }
        std::str::from_utf8(&self.s[st..self.p]).unwrap()
    }
    fn peek_word(&mut self) -> &'a str { let p = self.p; let w = self.word(); self.p = p; w }
    fn name(&mut self) -> String { // after % or @
        if self.s[self.p] == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' { self.p += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() && (self.s[self.p].is_ascii_alphanumeric() || matches!(self.s[self.p], b'_' | b'.' | b'-' | b'$')) { self.p += 1; }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0;
        loop {
            match self.s[self.p] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.p += 1; return; } } b'"' => { self.p += 1; while self.s[self.p] != b'"' { self.p += 1; } } _ => {} }
            self.p += 1;
        }
    }
}

impl Module {
    fn ty(&self, l: &mut Lx) -> Tr {
        let c = l.peek();
        match c {
            b'{' => { l.need("{"); let v = self.tylist(l, "}"); Rc::new(Ty::Struct(v, false)) }
            b'[' => { l.need("["); let n: u64 = l.word().parse().unwrap(); l.need("x"); let t = self.ty(l); l.need("]"); Rc::new(Ty::Arr(n, t)) }
            b'<' => {
                l.need("<");
                if l.peek() == b'{' { l.need("{"); let v = self.tylist(l, "}"); l.need(">"); Rc::new(Ty::Struct(v, true)) }
                else { let n: u32 = l.word().parse().unwrap(); l.need("x"); let t = self.ty(l); l.need(">"); Rc::new(Ty::Vec(n, t)) }
            }
            b'%' => { l.need("%"); let n = l.name(); self.types.get(&n).cloned().unwrap_or(Rc::new(Ty::Other)) }
            _ => {
                let w = l.word();
                Rc::new(match w {
                    "void" => Ty::Void, "ptr" => { if l.eat("addrspace") { l.skip_parens(); } Ty::Ptr }, "float" => Ty::F32, "double" => Ty::F64,
                    "label" | "metadata" | "token" | "half" | "fp128" | "x86_fp80" => Ty::Other,
                    _ if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                    _ => panic!("type? `{}` {}", w, l.rest()),
                })
            }
        }
    }
    fn tylist(&self, l: &mut Lx, end: &str) -> Vec<Tr> {
        let mut v = vec![];
        if l.eat(end) { return v; }
        loop { v.push(self.ty(l)); if l.eat(end) { return v; } l.need(","); }
    }
    fn is_type_start(&self, l: &mut Lx) -> bool {
        match l.peek() {
            b'{' | b'[' | b'<' | b'%' => true,
            _ => { let w = l.peek_word(); matches!(w, "void" | "ptr" | "float" | "double" | "label" | "metadata" | "token" | "half" | "fp128") || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit())) }
        }
    }
    fn skip_attrs_to_type(&self, l: &mut Lx) {
        while !self.is_type_start(l) { self.skip_attr(l); }
    }
    fn skip_attr(&self, l: &mut Lx) {
        if l.eat("#") { l.word(); return; }
        if l.peek() == b'"' { l.p += 1; while l.s[l.p] != b'"' { l.p += 1; } l.p += 1; if l.eat("=") { l.ws(); l.p += 1; while l.s[l.p] != b'"' { l.p += 1; } l.p += 1; } return; }
        let w = l.word();
        if w.is_empty() { panic!("attr? {}", l.rest()); }
        if w == "align" || w == "cc" { if l.peek() != b'(' { l.word(); return; } }
        if l.p < l.s.len() && l.s[l.p] == b'(' { l.skip_parens(); }
    }
    pub fn zero(t: &Ty) -> Val {
        match t {
            Ty::Arr(n, e) => Val::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| Self::zero(e)).collect())),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|e| Self::zero(e)).collect())),
            _ => Val::C(0),
        }
    }
    fn gaddr(&self, n: &str) -> Option<u128> {
        if let Some(f) = self.fmap.get(n) { return Some(addr_of_obj(*f as u64)); }
        if let Some(g) = self.gmap.get(n) { return Some(addr_of_obj(self.funcs_len as u64 + *g as u64)); }
        None
    }
    /// constant of type t
    fn konst(&self, l: &mut Lx, t: &Tr) -> Val {
        match l.peek() {
            b'@' => { l.p += 1; let n = l.name(); Val::C(self.gaddr(&n).unwrap_or_else(|| panic!("global {}", n))) }
            b'{' => { l.need("{"); let r = self.klist(l, "}"); r }
            b'[' => { l.need("["); self.klist(l, "]") }
            b'<' => { l.need("<"); if l.peek() == b'{' { l.need("{"); let r = self.klist(l, "}"); l.need(">"); r } else { self.klist(l, ">") } }
            b'c' if l.s.get(l.p + 1) == Some(&b'"') => {
                l.p += 2;
                let mut v = vec![];
                while l.s[l.p] != b'"' {
                    if l.s[l.p] == b'\\' {
                        if l.s[l.p + 1] == b'\\' { v.push(Val::C(b'\\' as u128)); l.p += 2; continue; }
                        let h = std::str::from_utf8(&l.s[l.p + 1..l.p + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        l.p += 3;
                    } else { v.push(Val::C(l.s[l.p] as u128)); l.p += 1; }
                }
                l.p += 1;
                Val::A(Rc::new(v))
            }
            _ => {
                let p0 = l.p;
                let w = l.word();
                match w {
                    "true" => Val::C(1), "false" => Val::C(0), "null" => Val::C(0), "none" => Val::C(0),
                    "undef" | "poison" | "zeroinitializer" => Self::zero(t),
                    "splat" => { l.need("("); let et = self.ty(l); let v = self.konst(l, &et); l.need(")"); Val::A(Rc::new(vec![v; t.count()])) }
                    "getelementptr" => {
                        while l.peek() != b'(' { if l.peek_word() == "inrange" { l.word(); l.skip_parens(); } else { l.word(); } }
                        l.need("(");
                        let st = self.ty(l); l.need(",");
                        let pt = self.ty(l);
                        let Val::C(b) = self.konst(l, &pt) else { panic!() };
                        let mut off = 0i64; let mut cur = st.clone(); let mut first = true;
                        while l.eat(",") {
                            l.eat("inrange");
                            let it = self.ty(l); let Val::C(k) = self.konst(l, &it) else { panic!() };
                            let k = sx(k, it.bits()) as i64;
                            if first { off += k * cur.size() as i64; first = false; } else { off += cur.field_off(0) as i64 + if let Ty::Struct(..) = &*cur { cur.field_off(k as usize) as i64 } else { k * cur.elem(0).size() as i64 }; cur = cur.elem(if let Ty::Struct(..) = &*cur { k as usize } else { 0 }); }
                        }
                        l.need(")");
                        Val::C((b as u64).wrapping_add(off as u64) as u128)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                        l.need("("); let ft = self.ty(l); let v = self.konst(l, &ft); l.need("to"); let tt = self.ty(l); l.need(")");
                        match v { Val::C(k) if tt.is_scalar() => Val::C(k & mask(tt.bits())), v => v }
                    }
                    "add" | "sub" | "xor" | "mul" | "shl" => {
                        while l.peek() != b'(' { l.word(); }
                        l.need("("); let t1 = self.ty(l); let Val::C(a) = self.konst(l, &t1) else { panic!() }; l.need(","); let t2 = self.ty(l); let Val::C(b) = self.konst(l, &t2) else { panic!() }; l.need(")");
                        let op = match w { "add" => Op::Add, "sub" => Op::Sub, "xor" => Op::Xor, "mul" => Op::Mul, _ => Op::Shl };
                        Val::C(fold(op, t1.bits(), t1.bits(), a, b, 0, t1.bits(), 0))
                    }
                    _ => match &**t {
                        Ty::Int(bw) => { let k: i128 = if let Ok(k) = w.parse::<i128>() { k } else if let Ok(k) = w.parse::<u128>() { k as i128 } else if let Some(h) = w.strip_prefix("u0x") { u128::from_str_radix(h, 16).unwrap() as i128 } else if let Some(h) = w.strip_prefix("s0x") { i128::from_str_radix(h, 16).unwrap() } else { panic!("int? {} {}", w, { l.p = p0; l.rest() }) }; Val::C(k as u128 & mask(*bw)) }
                        Ty::F64 | Ty::F32 => {
                            let d: f64 = if let Some(h) = w.strip_prefix("0x") { f64::from_bits(u64::from_str_radix(h, 16).unwrap()) }
                                else if let Some(h) = w.strip_prefix("f0x") { return Val::C(u128::from_str_radix(h, 16).unwrap()) }
                                else { match w { "+qnan" | "nan" | "qnan" => f64::NAN, "-qnan" => -f64::NAN, "+inf" | "inf" => f64::INFINITY, "-inf" => f64::NEG_INFINITY, _ => w.parse().unwrap_or_else(|_| panic!("float {}", w)) } };
                            if **t == Ty::F64 { Val::C(d.to_bits() as u128) } else { Val::C((d as f32).to_bits() as u128) }
                        }
                        _ => panic!("const? {:?} {} {}", t, w, { l.p = p0; l.rest() }),
                    },
                }
            }
        }
    }
    fn klist(&self, l: &mut Lx, end: &str) -> Val {
        let mut v = vec![];
        if l.eat(end) { return Val::A(Rc::new(v)); }
        loop { let t = self.ty(l); v.push(self.konst(l, &t)); if l.eat(end) { return Val::A(Rc::new(v)); } l.need(","); }
    }
}

struct Fp<'m> { m: &'m Module, regs: HashMap<String, u32>, labels: HashMap<String, u32>, nregs: u32 }
impl<'m> Fp<'m> {
    fn reg(&mut self, n: String) -> u32 { if let Some(r) = self.regs.get(&n) { return *r; } let r = self.nregs; self.nregs += 1; self.regs.insert(n, r); r }
    fn opd(&mut self, l: &mut Lx, t: &Tr) -> Opd {
        if l.peek() == b'%' { l.p += 1; let n = l.name(); Opd::R(self.reg(n)) }
        else if l.peek() == b'!' || **t == Ty::Other { Opd::K(Val::C(0)) }
        else { Opd::K(self.m.konst(l, t)) }
    }
    fn lbl(&mut self, l: &mut Lx) -> u32 { l.need("label"); l.need("%"); let n = l.name(); self.labels.get(&n).cloned().unwrap_or(0) }
    fn tyop(&mut self, l: &mut Lx) -> (Tr, Opd) { let t = self.m.ty(l); let o = self.opd(l, &t); (t, o) }
    fn flags(&self, l: &mut Lx) { while !self.m.is_type_start(l) { l.word(); } }
    fn args(&mut self, l: &mut Lx) -> Vec<(Tr, Opd)> {
        let mut v = vec![];
        l.need("(");
        if l.eat(")") { return v; }
        loop {
            let t = self.m.ty(l);
            if *t == Ty::Other { // metadata
                let mut d = 0; loop { let c = l.s[l.p]; if c == b'(' || c == b'{' { d += 1 } if c == b')' || c == b'}' { if d == 0 { break } d -= 1 } if c == b',' && d == 0 { break } l.p += 1; }
                v.push((t, Opd::K(Val::C(0))));
            } else {
                loop {
                    let c = l.peek();
                    if matches!(c, b'%' | b'@' | b'{' | b'[' | b'<' | b'-' | b'!') || c.is_ascii_digit() || (c == b'c' && l.s[l.p + 1] == b'"') { break; }
                    let w = l.peek_word();
                    if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "add" | "sub" | "xor" | "trunc" | "bitcast" | "ptrtoaddr") || w.starts_with("+") || w.starts_with("0x") || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x") { break; }
                    self.m.skip_attr(l);
                }
                let o = self.opd(l, &t);
                v.push((t, o));
            }
            if l.eat(")") { return v; }
            l.need(",");
        }
    }
    fn call(&mut self, l: &mut Lx, dst: Option<u32>) -> I {
        self.m.skip_attrs_to_type(l);
        let rt = self.m.ty(l);
        if l.peek() == b'(' { l.skip_parens(); }
        let callee;
        let mut asm = None;
        if l.peek() == b'@' { l.p += 1; let n = l.name(); callee = n; }
        else if l.peek() == b'%' { let o = self.opd(l, &Rc::new(Ty::Ptr)); let a = self.args(l); return I::Call(dst, rt, Callee::Ind(o), a, None); }
        else if l.peek_word() == "asm" { l.word(); while l.peek() != b'"' { l.word(); } l.p += 1; let st = l.p; while l.s[l.p] != b'"' { l.p += 1; } asm = Some(String::from_utf8_lossy(&l.s[st..l.p]).into_owned()); l.p += 1; l.need(","); l.ws(); l.p += 1; while l.s[l.p] != b'"' { l.p += 1; } l.p += 1; callee = String::new(); }
        else { // constant expression callee
            let v = self.m.konst(l, &Rc::new(Ty::Ptr)); let a = self.args(l); return I::Call(dst, rt, Callee::Ind(Opd::K(v)), a, None);
        }
        let a = self.args(l);
        if let Some(s) = asm { return I::Call(dst, rt, Callee::Asm(s), a, None); }
        match self.m.fmap.get(&callee) { Some(f) => I::Call(dst, rt, Callee::F(*f), a, None), None => match self.m.gaddr(&callee) { Some(k) => I::Call(dst, rt, Callee::Ind(Opd::K(Val::C(k))), a, None), None => I::Bad(format!("call {}", callee)) } }
    }
    fn instr(&mut self, text: &str) -> Result<Result<I, (u32, Vec<(u32, Opd)>)>, String> {
        let mut lx = Lx { s: text.as_bytes(), p: 0 };
        let l = &mut lx;
        let mut dst = None;
        if l.peek() == b'%' { l.p += 1; let n = l.name(); dst = Some(self.reg(n)); l.need("="); }
        let d = dst.unwrap_or(0);
        let op = l.word();
        let iop = |o: &str| Some(match o { "add" => Op::Add, "sub" => Op::Sub, "mul" => Op::Mul, "udiv" => Op::UDiv, "sdiv" => Op::SDiv, "urem" => Op::URem, "srem" => Op::SRem, "and" => Op::And, "or" => Op::Or, "xor" => Op::Xor, "shl" => Op::Shl, "lshr" => Op::LShr, "ashr" => Op::AShr, "fadd" => Op::FAdd, "fsub" => Op::FSub, "fmul" => Op::FMul, "fdiv" => Op::FDiv, _ => return None });
        if let Some(o) = iop(op) {
            self.flags(l);
            let (t, a) = self.tyop(l); l.need(","); let b = self.opd(l, &t);
            return Ok(Ok(I::Bin(o, d, t, a, b)));
        }
        Ok(Ok(match op {
            "frem" => { self.flags(l); let (t, a) = self.tyop(l); l.need(","); let b = self.opd(l, &t); I::FRem(d, t, a, b) }
            "icmp" => {
                let mut p = l.word(); if p == "samesign" { p = l.word(); }
                let p = match p { "eq" => Pred::Eq, "ne" => Pred::Ne, "ult" => Pred::Ult, "ule" => Pred::Ule, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "slt" => Pred::Slt, "sle" => Pred::Sle, "sgt" => Pred::Sgt, "sge" => Pred::Sge, _ => return Err(text.into()) };
                let (t, a) = self.tyop(l); l.need(","); let b = self.opd(l, &t);
                I::ICmp(p, d, t, a, b)
            }
            "fcmp" => {
                let mut p; loop { p = l.word(); if matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") { continue; } break; }
                let (t, a) = self.tyop(l); l.need(","); let b = self.opd(l, &t);
                I::FCmp(p.to_string(), d, t, a, b)
            }
            "fneg" => { self.flags(l); let (t, a) = self.tyop(l); I::FNeg(d, t, a) }
            "trunc" | "zext" | "sext" | "fptosi" | "fptoui" | "sitofp" | "uitofp" | "fptrunc" | "fpext" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                self.flags(l);
                let (t, a) = self.tyop(l); l.need("to"); let tt = self.m.ty(l);
                let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "fptosi" => Cast::FpToSi, "fptoui" => Cast::FpToUi, "sitofp" => Cast::SiToFp, "uitofp" => Cast::UiToFp, "fptrunc" => Cast::FpTrunc, "fpext" => Cast::FpExt,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" if t.bits() < tt.bits() => Cast::ZExt, "ptrtoint" | "inttoptr" | "ptrtoaddr" if t.bits() > tt.bits() => Cast::Trunc, _ => Cast::Bit };
                I::Cast(c, d, t, tt, a)
            }
            "select" => { self.flags(l); let (ct, c) = self.tyop(l); l.need(","); let (t, a) = self.tyop(l); l.need(","); let (_, b) = self.tyop(l); I::Select(d, ct, t, c, a, b) }
            "freeze" => { let (_, a) = self.tyop(l); I::Move(d, a) }
            "getelementptr" => {
                self.flags(l);
                let st = self.m.ty(l); l.need(",");
                let (_, base) = self.tyop(l);
                let mut off = 0i64; let mut vars = vec![]; let mut cur = st; let mut first = true;
                while l.eat(",") {
                    if l.peek() == b'!' { break; }
                    let (it, i) = self.tyop(l);
                    let scale; let next;
                    if first { scale = cur.size() as i64; next = cur.clone(); first = false; }
                    else if let Ty::Struct(..) = &*cur { let Opd::K(Val::C(k)) = i else { return Err(text.into()) }; off += cur.field_off(k as usize) as i64; cur = cur.elem(k as usize); continue; }
                    else { scale = cur.elem(0).size() as i64; next = cur.elem(0); }
                    match i { Opd::K(Val::C(k)) => off = off.wrapping_add((sx(k, it.bits()) as i64).wrapping_mul(scale)), o => vars.push((o, it.bits(), scale)) }
                    cur = next;
                }
                I::Gep(d, base, off, vars)
            }
            "load" => { l.eat("atomic"); l.eat("volatile"); let t = self.m.ty(l); l.need(","); let (_, p) = self.tyop(l); I::Load(d, t, p) }
            "store" => { l.eat("atomic"); l.eat("volatile"); let (t, v) = self.tyop(l); l.need(","); let (_, p) = self.tyop(l); I::Store(t, v, p) }
            "alloca" => { l.eat("inalloca"); let t = self.m.ty(l); let mut n = Opd::K(Val::C(1)); if l.eat(",") { if self.m.is_type_start(l) { let (_, o) = self.tyop(l); n = o; } } I::Alloca(d, t.size(), n) }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") { l.need("call"); }
                let i = self.call(l, dst);
                if op == "invoke" {
                    // skip fn attrs up to 'to label'
                    loop { if l.peek_word() == "to" { l.word(); break; } self.m.skip_attr(l); }
                    let n = self.lbl(l);
                    match i { I::Call(a, b, c, e, _) => I::Call(a, b, c, e, Some(n)), o => o }
                } else { i }
            }
            "br" => { if l.peek_word() == "label" { I::Br(self.lbl(l)) } else { let (_, c) = self.tyop(l); l.need(","); let a = self.lbl(l); l.need(","); let b = self.lbl(l); I::CondBr(c, a, b) } }
            "switch" => {
                let (t, c) = self.tyop(l); l.need(","); let def = self.lbl(l); l.need("[");
                let mut cs = vec![];
                while !l.eat("]") { let kt = self.m.ty(l); let Val::C(k) = self.m.konst(l, &kt) else { panic!() }; l.need(","); let b = self.lbl(l); cs.push((k, b)); }
                I::Switch(t.bits(), c, def, cs)
            }
            "ret" => { if l.peek_word() == "void" { I::Ret(None) } else { let (t, v) = self.tyop(l); I::Ret(Some((t, v))) } }
            "unreachable" => I::Unreachable,
            "extractvalue" => { let (_, a) = self.tyop(l); let mut ix = vec![]; while l.eat(",") { if l.peek() == b'!' { break; } ix.push(l.word().parse().unwrap()); } I::ExtractV(d, a, ix) }
            "insertvalue" => { let (t, a) = self.tyop(l); l.need(","); let (_, v) = self.tyop(l); let mut ix = vec![]; while l.eat(",") { if l.peek() == b'!' { break; } ix.push(l.word().parse().unwrap()); } I::InsertV(d, t, a, v, ix) }
            "extractelement" => { let (t, a) = self.tyop(l); l.need(","); let (_, i) = self.tyop(l); I::ExtractE(d, t, a, i) }
            "insertelement" => { let (t, a) = self.tyop(l); l.need(","); let (_, v) = self.tyop(l); l.need(","); let (_, i) = self.tyop(l); I::InsertE(d, t, a, v, i) }
            "shufflevector" => { let (t, a) = self.tyop(l); l.need(","); let (_, b) = self.tyop(l); l.need(","); let (_, mk) = self.tyop(l); let Opd::K(Val::A(m)) = mk else { return Err(text.into()) }; I::Shuffle(d, t, a, b, m.iter().map(|v| if let Val::C(k) = v { *k as i32 } else { 0 }).collect()) }
            "atomicrmw" => { l.eat("volatile"); let o = l.word().to_string(); let (_, p) = self.tyop(l); l.need(","); let (t, v) = self.tyop(l); I::Rmw(o, d, t, p, v) }
            "cmpxchg" => { l.eat("weak"); l.eat("volatile"); let (_, p) = self.tyop(l); l.need(","); let (t, a) = self.tyop(l); l.need(","); let (_, b) = self.tyop(l); I::CmpXchg(d, t, p, a, b) }
            "fence" => I::Nop,
            "phi" => {
                self.flags(l);
                let t = self.m.ty(l);
                let mut v = vec![];
                loop { l.need("["); let o = self.opd(l, &t); l.need(","); l.need("%"); let n = l.name(); let b = self.labels.get(&n).cloned().unwrap_or(0); l.need("]"); v.push((b, o)); if !l.eat(",") || l.peek() == b'!' { break; } }
                return Ok(Err((d, v)));
            }
            "landingpad" | "resume" | "cleanuppad" => I::Bad(op.into()),
            _ => return Err(text.into()),
        }))
    }
}

impl Module {
    pub fn parse(text: &str) -> Module {
        let mut m = Module { funcs: vec![], globals: vec![], fmap: HashMap::new(), gmap: HashMap::new(), types: HashMap::new(), funcs_len: 0 };
        let lines: Vec<&str> = text.lines().collect();
        let fname = |s: &str| -> String { let i = s.find('@').unwrap(); let mut l = Lx { s: s.as_bytes(), p: i + 1 }; l.name() };
        // pass 1: names
        let mut pend: Vec<(usize, usize)> = vec![]; // function index, line
        let mut glines: Vec<(usize, usize)> = vec![];
        let mut aliases: Vec<(String, String)> = vec![];
        let mut i = 0;
        let mut prev_comment = "";
        while i < lines.len() {
            let s = lines[i];
            if s.starts_with("define ") || s.starts_with("declare ") {
                let n = fname(s);
                let id = m.funcs.len() as u32;
                let pretty = if prev_comment.is_empty() { n.clone() } else { prev_comment.to_string() };
                m.fmap.insert(n.clone(), id);
                m.funcs.push(Func { name: n, pretty, params: vec![], nregs: 0, blocks: vec![], defined: s.starts_with("define "), ret: Rc::new(Ty::Void) });
                if s.starts_with("define ") { pend.push((id as usize, i)); while lines[i] != "}" { i += 1; } }
                prev_comment = "";
            } else if s.starts_with('@') {
                let n = fname(s);
                let rest = &s[s.find(" = ").unwrap() + 3..];
                if rest.split_whitespace().take(6).any(|w| w == "alias") {
                    let tgt = { let k = rest.rfind('@').unwrap(); let mut l = Lx { s: rest.as_bytes(), p: k + 1 }; l.name() };
                    aliases.push((n, tgt));
                } else {
                    let id = m.globals.len();
                    m.gmap.insert(n.clone(), id as u32);
                    m.globals.push(Global { name: n, size: 0, constant: false, init: None, external: false });
                    glines.push((id, i));
                }
            } else if s.starts_with('%') && s.contains(" = type ") {
                let mut l = Lx { s: s.as_bytes(), p: 1 };
                let n = l.name();
                l.p = s.find(" = type ").unwrap() + 8;
                let t = if l.peek_word() == "opaque" { Rc::new(Ty::Other) } else { m.ty(&mut l) };
                m.types.insert(n, t);
            } else if let Some(c) = s.strip_prefix("; ") { if !c.starts_with("Function Attrs") { prev_comment = c; } }
            else if !s.starts_with(';') { prev_comment = ""; }
            i += 1;
        }
        m.funcs_len = m.funcs.len();
        for (a, b) in aliases { if let Some(f) = m.fmap.get(&b).cloned() { m.fmap.insert(a, f); } else if let Some(g) = m.gmap.get(&b).cloned() { m.gmap.insert(a, g); } }
        // globals
        for (id, ln) in glines {
            let s = lines[ln];
            let mut l = Lx { s: s.as_bytes(), p: s.find(" = ").unwrap() + 3 };
            let mut constant = false; let mut ext = false;
            loop {
                let w = l.word();
                match w { "constant" => { constant = true; break } "global" => break, "external" | "extern_weak" => ext = true, "thread_local" | "addrspace" => { if l.p < l.s.len() && l.s[l.p] == b'(' { l.skip_parens(); } } "" => panic!("global {}", s), _ => {} }
            }
            let t = m.ty(&mut l);
            let size = t.size();
            let init = if ext { None } else { Some((t.clone(), m.konst(&mut l, &t))) };
            let g = &mut m.globals[id];
            g.size = size; g.constant = constant; g.external = ext; g.init = init;
        }
        // functions
        for (id, ln) in pend {
            let hdr = lines[ln];
            let mut f = Fp { m: &m, regs: HashMap::new(), labels: HashMap::new(), nregs: 0 };
            let at = hdr.find('@').unwrap();
            let mut l = Lx { s: hdr.as_bytes(), p: 7 };
            while !m.is_type_start(&mut l) || l.p >= at { m.skip_attr(&mut l); }
            let ret = m.ty(&mut l);
            l.p = at + 1; l.name();
            let mut params = vec![];
            l.need("(");
            let mut un = 0;
            if !l.eat(")") {
                loop {
                    if l.eat("...") { l.need(")"); break; }
                    let _t = m.ty(&mut l);
                    while !matches!(l.peek(), b'%' | b',' | b')') { m.skip_attr(&mut l); }
                    if l.peek() == b'%' { l.p += 1; let n = l.name(); if n.bytes().all(|c| c.is_ascii_digit()) { un += 1; } params.push(f.reg(n)); } else { let n = format!("{}", un); un += 1; params.push(f.reg(n)); }
                    if l.eat(")") { break; }
                    l.need(",");
                }
            }
            // collect labels
            let mut body: Vec<(usize, Vec<String>)> = vec![];
            let mut j = ln + 1;
            let mut cur: Option<Vec<String>> = None;
            while lines[j] != "}" {
                let s = lines[j];
                if s.is_empty() || s.starts_with(';') || s.trim_start().starts_with("#dbg") { j += 1; continue; }
                if !s.starts_with(' ') {
                    if let Some(b) = cur.take() { body.push((0, b)); }
                    let mut lx = Lx { s: s.as_bytes(), p: 0 };
                    let n = lx.name();
                    let bi = body.len() as u32;
                    f.labels.insert(n, bi);
                    cur = Some(vec![]);
                } else {
                    if cur.is_none() { cur = Some(vec![]); }
                    let c = cur.as_mut().unwrap();
                    let t = s.trim_start();
                    // continuation lines (switch tables, landingpad clauses)
                    if t.starts_with("to label") || t.starts_with("cleanup") || t.starts_with("catch ") || t.starts_with("filter ") { let last = c.last_mut().unwrap(); last.push(' '); last.push_str(t); j += 1; continue; }
                    let mut line = t.to_string();
                    if t.starts_with("switch ") && !t.contains(']') { loop { j += 1; line.push(' '); line.push_str(lines[j].trim()); if lines[j].trim_start().starts_with(']') { break; } } }
                    c.push(line);
                }
                j += 1;
            }
            if let Some(b) = cur.take() { body.push((0, b)); }
            let mut blocks = vec![];
            for (_, ls) in body {
                let mut b = Block { phis: vec![], ins: vec![] };
                for s in ls {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.instr(&s)));
                    match r { Ok(Ok(Ok(i))) => if !matches!(i, I::Nop) { b.ins.push(i) }, Ok(Ok(Err(p))) => b.phis.push(p), Ok(Err(e)) => b.ins.push(I::Bad(e)), Err(_) => b.ins.push(I::Bad(s.clone())) }
                }
                blocks.push(b);
            }
            let nregs = f.nregs;
            let fu = &mut m.funcs[id];
            fu.params = params; fu.nregs = nregs; fu.blocks = blocks; fu.ret = ret;
        }
        m
    }
}
