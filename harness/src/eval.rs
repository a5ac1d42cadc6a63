//! Token-level evaluation against a reference parser.
use crate::common::Ast;
use crate::sym;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::evaluator::Evaluator;
use prexel::function::*;
use prexel::token::Token;
use std::mem::{size_of, ManuallyDrop, MaybeUninit};

/// What an evaluation is recorded in.
pub trait Rec: Copy + PartialEq + std::fmt::Debug + 'static {
    fn nil() -> Self;
    fn leaf(n: u64) -> Self;
    fn push(self, n: u64) -> Self;
    fn cat(self, r: Self) -> Self;
    fn un(self, op: u64) -> Self { self.push(op) }
    fn bin(self, r: Self, op: u64) -> Self { self.cat(r).push(op) }
}
impl Rec for Ast {
    fn nil() -> Ast { Ast::nil() }
    fn leaf(n: u64) -> Ast { Ast::leaf(n) }
    fn push(self, n: u64) -> Ast { Ast::push(self, n) }
    fn cat(self, r: Ast) -> Ast { Ast::cat(self, r) }
}
pub struct B(pub &'static str, pub u64, pub u32, pub bool);
impl<N: Rec> BinaryFunction<N> for B {
    fn name(&self) -> &str { self.0 }
    fn precedence(&self) -> Precedence { Precedence(self.2) }
    fn associativity(&self) -> Associativity { if self.3 { Associativity::Right } else { Associativity::Left } }
    fn call(&self, l: N, r: N) -> prexel::Result<N> { Ok(l.bin(r, self.1)) }
}
pub struct U(pub &'static str, pub u64, pub bool);
impl<N: Rec> UnaryFunction<N> for U {
    fn name(&self) -> &str { self.0 }
    fn notation(&self) -> Notation { if self.2 { Notation::Postfix } else { Notation::Prefix } }
    fn call(&self, v: N) -> prexel::Result<N> { Ok(v.un(self.1)) }
}
pub struct F(pub &'static str, pub u64);
impl<N: Rec> Function<N> for F {
    fn name(&self) -> &str { self.0 }
    fn call(&self, args: &[N]) -> prexel::Result<N> {
        let mut a = N::nil();
        for x in args { a = a.cat(*x); }
        Ok(a.push(self.1).push(args.len() as u64))
    }
}

// token kinds
pub const NUM: u64 = 0;
pub const VAR: u64 = 1;
pub const OPEN: u64 = 2;
pub const CLOSE: u64 = 3;
pub const PRE: u64 = 4;
pub const POST: u64 = 5;
pub const FUN: u64 = 6;
pub const COMMA: u64 = 7;
pub const OPS: u64 = 8; // 8,9,10
pub const OPEN2: u64 = 11;
pub const CLOSE2: u64 = 12;
pub const CONST: u64 = 13;
pub const NKIND: u64 = 14;

const W: usize = size_of::<Token<Ast>>() / 8;
pub fn table<N: Rec>(pos: usize) -> [ManuallyDrop<Token<N>>; NKIND as usize] {
    let s = |x: &str| x.to_string();
    [
        Token::Number(N::leaf(pos as u64 + 2)), Token::Variable(s("x")), Token::GroupingOpen('('), Token::GroupingClose(')'),
        Token::UnaryOperator(s("~")), Token::UnaryOperator(s("!")), Token::Function(s("f")), Token::Comma,
        Token::BinaryOperator(s("*")), Token::BinaryOperator(s("+")), Token::BinaryOperator(s("?")),
        Token::GroupingOpen('['), Token::GroupingClose(']'), Token::Constant(s("k")),
    ].map(ManuallyDrop::new)
}
/// Token sequence whose kinds stay symbolic in memory: the code under test splits them lazily.
pub struct Seq<const L: usize> { pub kinds: [u64; L], pub toks: [MaybeUninit<Token<Ast>>; L] }
impl<const L: usize> Seq<L> {
    pub fn new(allowed: u64) -> Self {
        let mut kinds = [0u64; L];
        let mut toks: [MaybeUninit<Token<Ast>>; L] = unsafe { MaybeUninit::uninit().assume_init() };
        for i in 0..L {
            let k = sym::bits(4);
            sym::assume((allowed >> k) & 1 == 1);
            kinds[i] = k;
            let t = ManuallyDrop::new(table::<Ast>(i));
            let src = t.as_ptr() as *const u64;
            let dst = toks[i].as_mut_ptr() as *mut u64;
            for w in 0..W { unsafe { dst.add(w).write_volatile(src.add(k as usize * W + w).read_volatile()) } }
        }
        Seq { kinds, toks }
    }
    pub fn slice(&self) -> &[Token<Ast>] { unsafe { std::slice::from_raw_parts(self.toks.as_ptr() as *const Token<Ast>, L) } }
}

pub struct Cfg { pub prec: [u32; 3], pub right: [bool; 3], pub implicit: bool, pub custom_call: bool }
pub fn context<N: Rec>(c: &Cfg) -> DefaultContext<'static, N> {
    let mut config = Config::new().with_grouping(Grouping::Bracket).with_implicit_mul(c.implicit);
    config.custom_function_call = c.custom_call;
    let mut x: DefaultContext<N> = DefaultContext::with_config(config);
    let _ = x.add_binary_function(B("*", 1, c.prec[0], c.right[0]));
    let _ = x.add_binary_function(B("+", 2, c.prec[1], c.right[1]));
    let _ = x.add_binary_function(B("?", 3, c.prec[2], c.right[2]));
    let _ = x.add_unary_function(U("~", 4, false));
    let _ = x.add_unary_function(U("!", 5, true));
    let _ = x.add_function(F("f", 7));
    let _ = x.add_constant("k", N::leaf(0));
    let _ = x.set_variable("x", N::leaf(1));
    x
}

/// Reference: recursive descent / precedence climbing over the same kinds.
pub struct Ref<'c> { pub k: &'c [u64], pub i: usize, pub c: &'c Cfg }
impl<'c> Ref<'c> {
    fn peek(&self) -> Option<u64> { self.k.get(self.i).copied() }
    pub fn all<N: Rec>(mut self) -> Option<N> { let a = self.expr(None)?; if self.i == self.k.len() { Some(a) } else { None } }
    /// `min`: (precedence, strict)
    fn expr<N: Rec>(&mut self, min: Option<(u32, bool)>) -> Option<N> {
        let mut l: N = self.operand()?;
        loop {
            let Some(t) = self.peek() else { return Some(l) };
            let (op, len) = if t >= OPS && t < OPS + 3 { ((t - OPS) as usize, 1) }
                else if self.c.implicit && self.juxtaposed(t) { (0, 0) }
                else { return Some(l) };
            let p = self.c.prec[op];
            if let Some((m, strict)) = min { if p < m || (strict && p == m) { return Some(l); } }
            self.i += len;
            let r = self.expr(Some((p, !self.c.right[op])))?;
            l = l.bin(r, op as u64 + 1);
        }
    }
    fn juxtaposed(&self, t: u64) -> bool {
        let prev = self.k[self.i - 1];
        if prev == NUM { t == FUN || t == CONST || t == VAR || t == OPEN || t == OPEN2 }
        else if prev == CLOSE || prev == CLOSE2 { t == NUM || t == FUN || t == CONST || t == VAR || t == OPEN || t == OPEN2 }
        else { false }
    }
    fn operand<N: Rec>(&mut self) -> Option<N> {
        let mut pre = 0;
        while self.peek()? == PRE { pre += 1; self.i += 1; }
        let t = self.peek()?;
        self.i += 1;
        let mut a = if t == NUM { N::leaf(self.i as u64 - 1 + 2) }
            else if t == VAR { N::leaf(1) }
            else if t == CONST { N::leaf(0) }
            else if t == OPEN || t == OPEN2 { let a = self.expr(None)?; self.close(t)?; a }
            else if t == FUN {
                let o = self.peek()?;
                if !(o == OPEN || (o == OPEN2 && self.c.custom_call)) { return None; }
                self.i += 1;
                let mut a = N::nil();
                let mut n = 0;
                let q = self.peek()?;
                if q == CLOSE || q == CLOSE2 { self.close(o)?; }
                else {
                    loop {
                        a = a.cat(self.expr(None)?);
                        n += 1;
                        if self.peek()? == COMMA { self.i += 1; } else { break; }
                    }
                    self.close(o)?;
                }
                a.push(7).push(n)
            }
            else { return None };
        for _ in 0..pre { a = a.un(4); }
        while self.peek() == Some(POST) { self.i += 1; a = a.un(5); }
        Some(a)
    }
    fn close(&mut self, open: u64) -> Option<()> {
        let t = self.peek()?;
        self.i += 1;
        if (open == OPEN && t == CLOSE) || (open == OPEN2 && t == CLOSE2) { Some(()) } else { None }
    }
}

pub fn cfg(implicit: bool) -> Cfg {
    let prec = [sym::bits(32) as u32, sym::bits(32) as u32, sym::bits(32) as u32];
    let right = [sym::flag(), sym::flag(), sym::flag()];
    for i in 0..3 { for j in 0..i { sym::assume(prec[i] != prec[j] || right[i] == right[j]); } }
    Cfg { prec, right, implicit, custom_call: false }
}
pub fn run<const L: usize>(allowed: u64, c: Cfg) {
    let x = context(&c);
    let s = Seq::<L>::new(allowed);
    let ev = ManuallyDrop::new(Evaluator::with_context(x));
    let got = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    let want: Option<Ast> = Ref { k: &s.kinds, i: 0, c: &c }.all();
    match (&*got, want) {
        (Ok(g), Some(w)) => { sym::cover(1); sym::obs(g.lo); sym::check(*g == w, 1) }
        (Err(_), None) => { sym::cover(2) }
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
    }
}

/// Only the sequences the reference accepts (longer ones).
pub fn valid<const L: usize>(allowed: u64, c: Cfg) {
    let s = Seq::<L>::new(allowed);
    let want: Option<Ast> = Ref { k: &s.kinds, i: 0, c: &c }.all();
    let Some(w) = want else { sym::assume(false); return };
    let ev = ManuallyDrop::new(Evaluator::with_context(context(&c)));
    let got = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    match &*got {
        Ok(g) => { sym::cover(1); sym::obs(g.lo); sym::check(*g == w, 1) }
        Err(_) => sym::check(false, 3),
    }
}
/// Only the sequences the reference rejects.
pub fn invalid<const L: usize>(allowed: u64, c: Cfg) {
    let s = Seq::<L>::new(allowed);
    let want: Option<Ast> = Ref { k: &s.kinds, i: 0, c: &c }.all();
    sym::assume(want.is_none());
    let ev = ManuallyDrop::new(Evaluator::with_context(context(&c)));
    let got = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    sym::cover(2);
    sym::obs(got.is_ok() as u64);
    sym::check(got.is_err(), 2);
}
fn small(c: Cfg) { match sym::choice(5) { 0 => run::<0>(ALL, c), 1 => run::<1>(ALL, c), 2 => run::<2>(ALL, c), 3 => run::<3>(ALL, c), _ => run::<4>(ALL, c) } }
fn custom() -> Cfg { let mut c = cfg(false); c.custom_call = true; c }
const ALL: u64 = (1 << NKIND) - 1;
const PREF: u64 = 1 << NUM | 1 << OPEN | 1 << CLOSE | 1 << PRE | 1 << POST | 3 << OPS;
const FUNS: u64 = 1 << NUM | 1 << OPEN | 1 << CLOSE | 1 << FUN | 1 << COMMA | 1 << OPS;

crate::entry! {
    h_eval_bin9 { run::<9>(1 << NUM | 7 << OPS, cfg(false)) }
    h_eval_bin11 { run::<11>(1 << NUM | 7 << OPS, cfg(false)) }
    h_eval_small { small(cfg(false)) }
    h_eval_smalli { small(cfg(true)) }
    h_eval_smallc { small(custom()) }
    h_eval_all4 { run::<4>(ALL, cfg(false)) }
    h_eval_all5 { run::<5>(ALL, cfg(false)) }
    h_eval_all6 { run::<6>(ALL, cfg(false)) }
    h_eval_all7 { run::<7>(ALL, cfg(false)) }
    h_eval_all8 { run::<8>(ALL, cfg(false)) }
    h_eval_val7 { valid::<7>(ALL, cfg(false)) }
    h_eval_val8 { valid::<8>(ALL, cfg(false)) }
    h_eval_val9 { valid::<9>(ALL, cfg(false)) }
    h_eval_pre8 { valid::<8>(PREF, cfg(false)) }
    h_eval_pre9 { valid::<9>(PREF, cfg(false)) }
    h_eval_fun9 { valid::<9>(FUNS, cfg(false)) }
    h_eval_pre10 { valid::<10>(PREF, cfg(false)) }
    h_eval_fun12 { valid::<12>(FUNS, cfg(false)) }
    h_eval_badfun10 { invalid::<10>(FUNS, cfg(false)) }
    h_eval_fun10 { valid::<10>(FUNS, cfg(false)) }
    h_eval_bad6 { invalid::<6>(ALL, cfg(false)) }
    h_eval_bad7 { invalid::<7>(ALL, cfg(false)) }
    h_eval_badfun8 { invalid::<8>(FUNS, cfg(false)) }
    h_eval_cust6 { run::<6>(ALL, custom()) }
    h_eval_imp5 { run::<5>(ALL, cfg(true)) }
    h_eval_imp6 { run::<6>(ALL, cfg(true)) }
    h_eval_imp7 { run::<7>(ALL, cfg(true)) }
    h_eval_impv7 { valid::<7>(ALL, cfg(true)) }
    h_eval_impv8 { valid::<8>(ALL, cfg(true)) }
}
