//! String-level harnesses: splitter, tokenizer and `Evaluator::eval` on symbolic strings.
use crate::common::{Ast, IMAG};
use crate::sym;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::*;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{DefaultSplitter, Splitter};
use std::mem::ManuallyDrop;

pub struct B(pub &'static str, pub u64, pub u32, pub bool);
impl<N: Num> BinaryFunction<N> for B {
    fn name(&self) -> &str { self.0 }
    fn precedence(&self) -> Precedence { Precedence(self.2) }
    fn associativity(&self) -> Associativity { if self.3 { Associativity::Right } else { Associativity::Left } }
    fn call(&self, l: N, r: N) -> prexel::Result<N> { Ok(l.bin(r, self.1)) }
}
pub struct U(pub &'static str, pub u64, pub bool);
impl<N: Num> UnaryFunction<N> for U {
    fn name(&self) -> &str { self.0 }
    fn notation(&self) -> Notation { if self.2 { Notation::Postfix } else { Notation::Prefix } }
    fn call(&self, v: N) -> prexel::Result<N> { Ok(v.un(self.1)) }
}
pub struct F(pub &'static str, pub u64);
impl<N: Num> Function<N> for F {
    fn name(&self) -> &str { self.0 }
    fn call(&self, args: &[N]) -> prexel::Result<N> {
        let mut a = N::nil();
        for x in args { a = a.cat(*x); }
        Ok(a.push(self.1).push(args.len() as u64))
    }
}

pub fn ascii<const L: usize>() -> [u8; L] {
    let mut b = [0u8; L];
    for i in 0..L { b[i] = sym::bits(7) as u8; }
    b
}
pub fn as_str(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }

fn is_op(c: u8) -> bool { matches!(c, b'~' | b'`' | b'!' | b'@' | b'#' | b'$' | b'%' | b'^' | b'&' | b'*' | b'-' | b'+' | b'_' | b':' | b';' | b'"' | b'\'' | b'|' | b'\\' | b'?' | b'.' | b'<' | b'>' | b'/' | b'=') }
fn is_ident0(c: u8) -> bool { matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'_') }
fn is_digit(c: u8) -> bool { c.wrapping_sub(b'0') <= 9 }
pub fn is_space(c: u8) -> bool { matches!(c, b' ' | 9..=13) }

/// Reference lexer over ASCII: end of the token that starts at `i`.
pub fn lex_end(b: &[u8], i: usize) -> usize {
    let c = b[i];
    let mut j = i + 1;
    if is_digit(c) { let mut dot = false; while j < b.len() && (is_digit(b[j]) || (b[j] == b'.' && !dot)) { if b[j] == b'.' { dot = true; } j += 1; } }
    else if is_ident0(c) { while j < b.len() && (is_ident0(b[j]) || is_digit(b[j])) { j += 1; } }
    else if is_op(c) { while j < b.len() && is_op(b[j]) { j += 1; } }
    j
}
/// Splitting is lossless and follows the documented lexical classes.
fn split<const L: usize>() {
    let b = ascii::<L>();
    let sp = ManuallyDrop::new(DefaultSplitter::default());
    let t = ManuallyDrop::new(sp.split_into_tokens(as_str(&b)));
    let mut i = 0;
    let mut k = 0;
    while i < L {
        if is_space(b[i]) { i += 1; continue; }
        let e = lex_end(&b, i);
        if k >= t.len() { sym::check(false, 1); return; }
        let s = t[k].as_bytes();
        sym::check(s.len() == e - i, 2);
        let mut same = true;
        for q in 0..s.len() { same &= s[q] == b[i + q]; }
        sym::check(same, 3);
        k += 1;
        i = e;
    }
    sym::check(k == t.len(), 4);
    sym::cover(1);
    sym::obs(k as u64);
}

/// Splitting is unaffected by a whitespace character inserted between two tokens.
fn split_ws<const L: usize>(ws: &'static [&'static str]) {
    let b = ascii::<L>();
    let mut p = 0;
    let n = sym::below(L as u64 + 1);
    let mut k = 0;
    while p < L && k < n { p = if is_space(b[p]) { p + 1 } else { lex_end(&b, p) }; k += 1; }
    let w = ws[sym::choice(ws.len() as u64) as usize];
    let mut t = String::new();
    t.push_str(as_str(&b[..p])); t.push_str(w); t.push_str(as_str(&b[p..]));
    let sp = ManuallyDrop::new(DefaultSplitter::default());
    let x = ManuallyDrop::new(sp.split_into_tokens(as_str(&b)));
    let y = ManuallyDrop::new(sp.split_into_tokens(&t));
    sym::check(x.len() == y.len(), 1);
    let mut same = true;
    for i in 0..x.len() { same &= x[i] == y[i]; }
    sym::check(same, 2);
    sym::cover(1);
    sym::obs(x.len() as u64);
}

/// What the value of an expression is recorded in.
pub trait Num: Copy + PartialEq + std::fmt::Debug + 'static {
    fn of(numeral: &[u8]) -> Option<Self>;
    fn nil() -> Self;
    fn leaf(n: u64) -> Self;
    fn push(self, n: u64) -> Self;
    fn cat(self, r: Self) -> Self;
    fn un(self, op: u64) -> Self { self.push(op) }
    fn bin(self, r: Self, op: u64) -> Self { self.cat(r).push(op) }
}
impl Num for Ast {
    fn of(w: &[u8]) -> Option<Ast> { num(w) }
    fn nil() -> Ast { Ast::nil() }
    fn leaf(n: u64) -> Ast { Ast::leaf(n) }
    fn push(self, n: u64) -> Ast { Ast::push(self, n) }
    fn cat(self, r: Ast) -> Ast { Ast::cat(self, r) }
}
// --- reference tokenizer ---
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum K { Num, Var, Const, Fun, Bin, Un, Open, Close, Comma, Unknown }
#[derive(Clone, Copy)]
pub struct T { pub k: K, pub s: usize, pub e: usize }

/// The value of a numeral whose imaginary unit may be apart from it.
fn num(w: &[u8]) -> Option<Ast> {
    let mut n = w.len();
    if unsafe { IMAG } && n > 1 && w[n - 1] == b'i' { n -= 1; while n > 0 && is_space(w[n - 1]) { n -= 1 } return Ast::numeral(&w[..n]).map(|a| a.push(0xB)) }
    Ast::numeral(w)
}
fn eq(b: &[u8], s: &str) -> bool { b == s.as_bytes() }
fn eqi(b: &[u8], s: &str) -> bool { b.eq_ignore_ascii_case(s.as_bytes()) }
/// The names a context knows (operator ids, precedences and associativities).
pub trait Lang {
    fn bin(b: &[u8]) -> Option<(u64, u32, bool)>;
    fn pre(b: &[u8]) -> Option<u64>;
    fn post(b: &[u8]) -> Option<u64>;
    fn fun(b: &[u8]) -> bool;
    fn con(b: &[u8]) -> bool;
    fn var(b: &[u8]) -> bool;
}
pub struct L0;
impl Lang for L0 {
    fn bin(b: &[u8]) -> Option<(u64, u32, bool)> { if eq(b, "+") { Some((1, 1, false)) } else if eq(b, "-") { Some((2, 1, false)) } else if eq(b, "^") { Some((3, 3, true)) } else if eq(b, "**") { Some((8, 3, true)) } else if eqi(b, "m") { Some((9, 2, false)) } else { None } }
    fn pre(b: &[u8]) -> Option<u64> { if eq(b, "-") { Some(4) } else if eq(b, "~") { Some(6) } else { None } }
    fn post(b: &[u8]) -> Option<u64> { if eq(b, "!") { Some(5) } else { None } }
    fn fun(b: &[u8]) -> bool { eqi(b, "f") }
    fn con(b: &[u8]) -> bool { eqi(b, "k") }
    fn var(b: &[u8]) -> bool { eq(b, "x") }
}

/// None: the expression is rejected while tokenizing.
/// `loose` is set to the number of tokens that are specified when an operator follows something that
/// is not part of any expression (an unknown token, a function without parentheses).
pub fn ref_tokens<G: Lang>(b: &[u8], out: &mut [T], loose: &mut Option<usize>) -> Option<usize> {
    #[allow(non_snake_case)]
    let L = b.len();
    let mut n: usize = 0;
    let mut i = 0;
    let mut ended = false; // the previous token completes an operand
    while i < L {
        if is_space(b[i]) { i += 1; continue; }
        let mut e = lex_end(b, i);
        let w = &b[i..e];
        let c = b[i];
        let k;
        if Ast::numeral(w).is_some() { k = K::Num; if unsafe { IMAG } { let mut j = e; while j < L && is_space(b[j]) { j += 1 } if j < L && b[j] == b'i' && lex_end(b, j) == j + 1 { if c == b'i' { return None } e = j + 1; } } }
        else if G::var(w) { k = K::Var }
        else if G::con(w) { k = K::Const }
        else if G::fun(w) { k = K::Fun }
        else if G::bin(w).is_some() || G::pre(w).is_some() || G::post(w).is_some() {
            if n > 0 && (matches!(out[n - 1].k, K::Unknown | K::Fun) || (out[n - 1].k == K::Bin && G::bin(&b[out[n - 1].s..out[n - 1].e]).is_none())) && loose.is_none() { *loose = Some(n); }
            let mut rest = e;
            while rest < L && is_space(b[rest]) { rest += 1; }
            let unary = if G::post(w).is_some() { ended } else if G::pre(w).is_some() { !ended && rest < L } else { false };
            if unary { k = K::Un }
            else { if n == 0 || rest == L { return None; } k = K::Bin }
        }
        else if c == b',' { k = K::Comma }
        else if matches!(c, b'(' | b'[' | b'{') { k = K::Open }
        else if matches!(c, b')' | b']' | b'}') { k = K::Close }
        else { k = K::Unknown }
        ended = match k { K::Num | K::Var | K::Const | K::Close => true, K::Un => G::post(w).is_some(), _ => false };
        out[n] = T { k, s: i, e };
        n += 1;
        i = e;
    }
    if n == 0 { None } else { Some(n) }
}
pub fn ctx() -> DefaultContext<'static, Ast> {
    let mut x: DefaultContext<Ast> = DefaultContext::with_config(Config::new().with_complex_number(unsafe { IMAG }));
    let _ = x.add_binary_function(B("+", 1, 1, false));
    let _ = x.add_binary_function(B("-", 2, 1, false));
    let _ = x.add_binary_function(B("^", 3, 3, true));
    let _ = x.add_binary_function(B("**", 8, 3, true));
    let _ = x.add_binary_function(B("m", 9, 2, false));
    let _ = x.add_unary_function(U("-", 4, false));
    let _ = x.add_unary_function(U("~", 6, false));
    let _ = x.add_unary_function(U("!", 5, true));
    let _ = x.add_function(F("f", 7));
    let _ = x.add_constant("k", Ast::leaf(0));
    let _ = x.set_variable("x", Ast::leaf(1));
    x
}
/// As `L0`, with a name of a function or an operator that is also a variable or a constant.
pub struct L2;
static mut OVER: u64 = 9;
impl Lang for L2 {
    fn bin(b: &[u8]) -> Option<(u64, u32, bool)> { L0::bin(b) }
    fn pre(b: &[u8]) -> Option<u64> { L0::pre(b) }
    fn post(b: &[u8]) -> Option<u64> { L0::post(b) }
    fn fun(b: &[u8]) -> bool { L0::fun(b) }
    fn con(b: &[u8]) -> bool { L0::con(b) || unsafe { (OVER == 2 && eqi(b, "f")) || (OVER == 3 && eqi(b, "m")) } }
    fn var(b: &[u8]) -> bool { L0::var(b) || unsafe { (OVER == 0 && eq(b, "f")) || (OVER == 1 && eq(b, "m")) } }
}
const ALPHAO: [u8; 8] = *b"1-!(fmF ";
fn overlap<const L: usize>() {
    let o = sym::choice(4);
    unsafe { OVER = o }
    let mut c = ctx();
    let r = match o { 0 => c.set_variable("f", Ast::leaf(2)).is_ok(), 1 => c.set_variable("m", Ast::leaf(2)).is_ok(), 2 => c.add_constant("f", Ast::leaf(2)).is_ok(), _ => c.add_constant("m", Ast::leaf(2)).is_ok() };
    sym::check(r, 5);
    tokens_in::<L2, L>(over::<L, 8>(&ALPHAO), c)
}
fn tokens_match<const L: usize>(b: [u8; L]) { tokens_in::<L0, L>(b, ctx()) }
fn tokens_in<G: Lang, const L: usize>(b: [u8; L], c: DefaultContext<'static, Ast>) {
    let c = ManuallyDrop::new(c);
    let tz: ManuallyDrop<Tokenizer<Ast>> = ManuallyDrop::new(Tokenizer::new());
    let got = ManuallyDrop::new(tz.tokenize(&c, as_str(&b)));
    let mut r = [T { k: K::Comma, s: 0, e: 0 }; L];
    let mut loose = None;
    let want = ref_tokens::<G>(&b, &mut r, &mut loose);
    match (&*got, want) {
        _ if loose.is_some() => { sym::cover(3); sym::obs(got.is_ok() as u64) }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 1),
        (Err(_), Some(_)) => sym::check(false, 2),
        (Ok(g), Some(n)) => {
            sym::check(g.len() == n, 3);
            for i in 0..n {
                let t = r[i];
                let w = &b[t.s..t.e];
                let ok = match (&g[i], t.k) {
                    (Token::Number(a), K::Num) => Some(*a) == num(w),
                    (Token::Variable(s), K::Var) | (Token::Constant(s), K::Const) | (Token::Function(s), K::Fun) | (Token::UnaryOperator(s), K::Un) | (Token::BinaryOperator(s), K::Bin) | (Token::Unknown(s), K::Unknown) => s.as_bytes() == w,
                    (Token::GroupingOpen(c), K::Open) | (Token::GroupingClose(c), K::Close) => *c as u32 == w[0] as u32,
                    (Token::Comma, K::Comma) => true,
                    _ => false,
                };
                sym::check(ok, 4);
            }
            sym::cover(1);
            sym::obs(n as u64);
        }
    }
}

// --- reference parser over reference tokens ---
pub struct P<'a, G> { pub b: &'a [u8], pub t: &'a [T], pub i: usize, pub g: std::marker::PhantomData<G> }
impl<'a, G: Lang> P<'a, G> {
    fn w(&self) -> &'a [u8] { let t = self.t[self.i]; &self.b[t.s..t.e] }
    fn k(&self) -> Option<K> { self.t.get(self.i).map(|t| t.k) }
    pub fn all<N: Num>(mut self) -> Option<N> { let a = self.expr(0)?; if self.i == self.t.len() { Some(a) } else { None } }
    fn expr<N: Num>(&mut self, min: u32) -> Option<N> {
        let mut l: N = self.operand()?;
        while self.k() == Some(K::Bin) {
            let (op, p, right) = G::bin(self.w())?;
            if p < min { break; }
            self.i += 1;
            let r = self.expr(if right { p } else { p + 1 })?;
            l = l.bin(r, op);
        }
        Some(l)
    }
    fn operand<N: Num>(&mut self) -> Option<N> {
        let mut pre = [0u64; 40];
        let mut n = 0;
        while self.k()? == K::Un { pre[n] = G::pre(self.w())?; n += 1; self.i += 1; }
        let w = self.w();
        let k = self.k()?;
        self.i += 1;
        let mut a = match k {
            K::Num => N::of(w)?,
            K::Var => N::leaf(1),
            K::Const => N::leaf(0),
            K::Open => { let a = self.expr(0)?; self.close(w[0])?; a }
            K::Fun => {
                if self.k()? != K::Open || self.w()[0] != b'(' { return None; }
                self.i += 1;
                let mut a = N::nil();
                let mut n = 0;
                if self.k()? != K::Close {
                    loop { a = a.cat(self.expr(0)?); n += 1; if self.k()? == K::Comma { self.i += 1 } else { break } }
                }
                self.close(b'(')?;
                a.push(7).push(n)
            }
            _ => return None,
        };
        while n > 0 { n -= 1; a = a.un(pre[n]); }
        while self.k() == Some(K::Un) { a = a.un(G::post(self.w())?); self.i += 1; }
        Some(a)
    }
    fn close(&mut self, o: u8) -> Option<()> {
        if self.k()? != K::Close { return None; }
        let c = self.w()[0];
        self.i += 1;
        if (o == b'(' && c == b')') || (o == b'[' && c == b']') || (o == b'{' && c == b'}') { Some(()) } else { None }
    }
}
fn eval_match<const L: usize>(b: [u8; L]) {
    let ev = ManuallyDrop::new(Evaluator::with_context(ctx()));
    let got = ManuallyDrop::new(ev.eval(as_str(&b)));
    let mut r = [T { k: K::Comma, s: 0, e: 0 }; L];
    let want = match ref_tokens::<L0>(&b, &mut r, &mut None) { None => None, Some(n) => P::<L0> { b: &b, t: &r[..n], i: 0, g: std::marker::PhantomData }.all::<Ast>() };
    match (&*got, want) {
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
        (Ok(g), Some(w)) => { sym::check(*g == w, 1); sym::cover(1); sym::obs(g.lo); }
    }
}
/// Only the strings the reference accepts.
fn eval_valid<const L: usize>(b: [u8; L]) {
    let mut r = [T { k: K::Comma, s: 0, e: 0 }; L];
    let want = match ref_tokens::<L0>(&b, &mut r, &mut None) { None => None, Some(n) => P::<L0> { b: &b, t: &r[..n], i: 0, g: std::marker::PhantomData }.all::<Ast>() };
    let Some(w) = want else { sym::assume(false); return };
    let ev = ManuallyDrop::new(Evaluator::with_context(ctx()));
    let got = ManuallyDrop::new(ev.eval(as_str(&b)));
    match &*got {
        Err(_) => sym::check(false, 3),
        Ok(g) => { sym::check(*g == w, 1); sym::cover(1); sym::obs(g.lo); }
    }
}
const ALPHA: [u8; 16] = *b"10.+-^*!~(),xfk ";
const ALPHA2: [u8; 8] = *b"1+-!*()~";
const ALPHA3: [u8; 8] = *b"1-f(,)x!";
const ALPHAI: [u8; 8] = *b"1i.-!() ";
const ALPHAJ: [u8; 8] = *b"1ix-^f()";
fn imag() { unsafe { IMAG = true } }
fn over<const L: usize, const A: usize>(t: &'static [u8; A]) -> [u8; L] {
    let mut b = [0u8; L];
    for i in 0..L { b[i] = t[sym::bits(A.trailing_zeros()) as usize]; }
    b
}
/// No panic on any string (any byte content that is valid UTF-8: here ASCII).
fn evals<const L: usize>(x: DefaultContext<'static, Ast>) {
    let b = ascii::<L>();
    let ev = ManuallyDrop::new(Evaluator::with_context(x));
    let got = ManuallyDrop::new(ev.eval(as_str(&b)));
    match &*got { Ok(g) => { sym::cover(1); sym::obs(g.lo) } Err(_) => sym::cover(2) }
}
/// A string of L characters of which one, at any position, is any of some non-ASCII ones.
const UNI: [&str; 10] = ["\u{a0}", "\u{e9}", "\u{3c0}", "\u{3000}", "\u{130}", "\u{df}", "\u{2212}", "\u{ff11}", "\u{1f600}", "\u{85}"];
fn evals_uni<const L: usize>(t: &'static [u8; 8]) {
    let p = sym::choice(L as u64) as usize;
    let u = UNI[sym::choice(10) as usize];
    let mut s = String::new();
    for i in 0..L { if i == p { s.push_str(u) } else { s.push(t[sym::bits(3) as usize] as char) } }
    let ev = ManuallyDrop::new(Evaluator::with_context(ctx()));
    let got = ManuallyDrop::new(ev.eval(&s));
    match &*got { Ok(g) => { sym::cover(1); sym::obs(g.lo) } Err(_) => sym::cover(2) }
}
fn ctx_opts(implicit: bool, complex: bool, custom: bool) -> DefaultContext<'static, Ast> {
    let mut x: DefaultContext<Ast> = DefaultContext::with_config(Config::new().with_implicit_mul(implicit).with_complex_number(complex).with_custom_function_call(custom));
    let _ = x.add_binary_function(B("-", 2, 1, false));
    if sym::flag() { let _ = x.add_binary_function(B("*", 1, 2, false)); }
    let _ = x.add_unary_function(U("-", 4, false));
    let _ = x.add_unary_function(U("!", 5, true));
    let _ = x.add_function(F("f", 7));
    let _ = x.add_constant("i", Ast::leaf(0));
    x
}
crate::entry! {
    h_split_s { match sym::choice(4) { 0 => split::<0>(), 1 => split::<1>(), 2 => split::<2>(), _ => split::<3>() } }
    h_ws_s { match sym::choice(4) { 0 => split_ws::<0>(&[" ", "\t", "\n", "\u{a0}"]), 1 => split_ws::<1>(&[" ", "\t", "\n", "\u{a0}"]), 2 => split_ws::<2>(&[" ", "\t", "\n", "\u{a0}"]), _ => split_ws::<3>(&[" "]) } }
    h_tok_s { match sym::choice(3) { 0 => tokens_match(ascii::<0>()), 1 => tokens_match(ascii::<1>()), _ => tokens_match(ascii::<2>()) } }
    h_ev_s { match sym::choice(4) { 0 => eval_match(ascii::<0>()), 1 => eval_match(ascii::<1>()), 2 => eval_match(ascii::<2>()), _ => eval_match(over::<4, 16>(&ALPHA)) } }
    h_np_s { match sym::choice(3) { 0 => evals::<0>(ctx()), 1 => evals::<1>(ctx()), _ => evals::<2>(ctx()) } }
    h_split4 { split::<4>() }
    h_split5 { split::<5>() }
    h_split7 { split::<7>() }
    h_split6 { split::<6>() }
    h_ws4 { split_ws::<4>(&[" "]) }
    h_ws3u { split_ws::<3>(&["\t", "\n", "\r", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{2003}", "\u{3000}", "  "]) }
    h_ws5 { split_ws::<5>(&[" "]) }
    h_tok3 { tokens_match(ascii::<3>()) }
    h_tok4 { tokens_match(ascii::<4>()) }
    h_tok_over4 { overlap::<4>() }
    h_tok_over5 { overlap::<5>() }
    h_tok5a { tokens_match(over::<5, 16>(&ALPHA)) }
    h_tok6b { tokens_match(over::<6, 8>(&ALPHA2)) }
    h_ev3 { eval_match(ascii::<3>()) }
    h_ev4 { eval_match(ascii::<4>()) }
    h_ev5a { eval_match(over::<5, 16>(&ALPHA)) }
    h_ev6a { eval_match(over::<6, 16>(&ALPHA)) }
    h_ev6b { eval_match(over::<6, 8>(&ALPHA2)) }
    h_ev7b { eval_match(over::<7, 8>(&ALPHA2)) }
    h_ev7c { eval_match(over::<7, 8>(&ALPHA3)) }
    h_va4 { eval_valid(ascii::<4>()) }
    h_va5 { eval_valid(ascii::<5>()) }
    h_va6 { eval_valid(ascii::<6>()) }
    h_va6a { eval_valid(over::<6, 16>(&ALPHA)) }
    h_va7a { eval_valid(over::<7, 16>(&ALPHA)) }
    h_va8a { eval_valid(over::<8, 16>(&ALPHA)) }
    h_va8b { eval_valid(over::<8, 8>(&ALPHA2)) }
    h_va8c { eval_valid(over::<8, 8>(&ALPHA3)) }
    h_va9c { eval_valid(over::<9, 8>(&ALPHA3)) }
    h_np3 { evals::<3>(ctx()) }
    h_np5 { evals::<5>(ctx()) }
    h_np4 { evals::<4>(ctx()) }
    h_np3o { let (a, b, c) = (sym::flag(), sym::flag(), sym::flag()); evals::<3>(ctx_opts(a, b, c)) }
    h_np4o { let (a, b, c) = (sym::flag(), sym::flag(), sym::flag()); evals::<4>(ctx_opts(a, b, c)) }
    h_im_s { imag(); match sym::choice(4) { 0 => eval_match(ascii::<1>()), 1 => eval_match(ascii::<2>()), 2 => eval_match(over::<4, 8>(&ALPHAI)), _ => eval_match(over::<4, 8>(&ALPHAJ)) } }
    h_imt_s { imag(); match sym::choice(3) { 0 => tokens_match(ascii::<1>()), 1 => tokens_match(ascii::<2>()), _ => tokens_match(over::<4, 8>(&ALPHAI)) } }
    h_imt3 { imag(); tokens_match(ascii::<3>()) }
    h_imt5 { imag(); tokens_match(over::<5, 8>(&ALPHAI)) }
    h_im3 { imag(); eval_match(ascii::<3>()) }
    h_im5 { imag(); eval_match(over::<5, 8>(&ALPHAI)) }
    h_im6 { imag(); eval_match(over::<6, 8>(&ALPHAI)) }
    h_im7v { imag(); eval_valid(over::<7, 8>(&ALPHAI)) }
    h_im6j { imag(); eval_match(over::<6, 8>(&ALPHAJ)) }
    h_im7j { imag(); eval_valid(over::<7, 8>(&ALPHAJ)) }
    h_np4u { evals_uni::<4>(&ALPHA2) }
    h_np4v { evals_uni::<4>(&ALPHA3) }
}
