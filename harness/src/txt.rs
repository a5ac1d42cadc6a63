//! Longer texts: names, numerals and operators of several characters.
use crate::common::Ast;
use crate::sym;
use crate::tok::*;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{DefaultSplitter, Splitter};
use std::mem::ManuallyDrop;

/// A hash of the operations applied and of the numerals.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H(pub u64);
impl std::str::FromStr for H { type Err = (); fn from_str(s: &str) -> Result<H, ()> { H::of(s.as_bytes()).ok_or(()) } }
impl Num for H {
    fn of(b: &[u8]) -> Option<H> {
        Ast::numeral(b)?;
        let mut h = 0u64;
        for c in b { h = h.rotate_left(7) ^ *c as u64 }
        Some(H(h).push(5))
    }
    fn nil() -> H { H(0x9E37_79B9_7F4A_7C15) }
    fn leaf(n: u64) -> H { H::nil().push(n).push(77) }
    fn push(self, n: u64) -> H { let x = self.0.rotate_left(23) ^ n; H(x.wrapping_add(x << 5).wrapping_add(0xD6E8_FEB8_6659_FD93)) }
    fn cat(self, r: H) -> H { self.push(r.0).push(91) }
}
const BIN: [(&str, u64, u32, bool); 8] = [("+", 1, 1, false), ("-", 2, 1, false), ("*", 3, 2, false), ("^", 8, 3, true), ("**", 9, 3, true), ("<<", 10, 0, false), ("<=", 11, 0, false), ("mod", 12, 2, false)];
const PRE: [(&str, u64); 3] = [("-", 4), ("~", 6), ("not", 13)];
const POST: [(&str, u64); 2] = [("!", 5), ("!!", 14)];
const FUN: [&str; 2] = ["max", "f2"];
const CON: [&str; 2] = ["pi", "e"];
const VAR: [&str; 3] = ["x", "_y", "rate"];
fn is(a: &[u8], b: &str) -> bool { a == b.as_bytes() }
fn isi(a: &[u8], b: &str) -> bool { a.eq_ignore_ascii_case(b.as_bytes()) }
pub struct L1;
impl Lang for L1 {
    fn bin(b: &[u8]) -> Option<(u64, u32, bool)> { for o in BIN { if isi(b, o.0) { return Some((o.1, o.2, o.3)) } } None }
    fn pre(b: &[u8]) -> Option<u64> { for o in PRE { if isi(b, o.0) { return Some(o.1) } } None }
    fn post(b: &[u8]) -> Option<u64> { for o in POST { if isi(b, o.0) { return Some(o.1) } } None }
    fn fun(b: &[u8]) -> bool { FUN.iter().any(|n| isi(b, n)) }
    fn con(b: &[u8]) -> bool { CON.iter().any(|n| isi(b, n)) }
    fn var(b: &[u8]) -> bool { VAR.iter().any(|n| is(b, n)) }
}
pub fn ctx<N: Num>() -> DefaultContext<'static, N> { ctx_cfg(Config::new()) }
fn ctx_cfg<N: Num>(c: Config) -> DefaultContext<'static, N> {
    let mut x: DefaultContext<N> = DefaultContext::with_config(c);
    for o in BIN { let _ = x.add_binary_function(B(o.0, o.1, o.2, o.3)); }
    for o in PRE { let _ = x.add_unary_function(U(o.0, o.1, false)); }
    for o in POST { let _ = x.add_unary_function(U(o.0, o.1, true)); }
    for f in FUN { let _ = x.add_function(F(f, 7)); }
    for c in CON { let _ = x.add_constant(c, N::leaf(0)); }
    for v in VAR { let _ = x.set_variable(v, N::leaf(1)); }
    x
}
const BASES: [&str; 9] = [
    "max(1, -x) ^ 2 + rate!",
    "(12.5 mod _y) << 3 ** pi",
    "[1 + {2 * (x - 30)}] - e",
    "not rate <= PI MOD 10",
    "MAX(f2(1,2),F2(),-1.25)!!",
    "0.5*x+1000000 - ~_y ^ -2",
    "-(((x)))*[[2]]! \t<= rate",
    "f2(max(-1, not 2), x)**e",
    "x! !!-2 ! !+ -(3)!! ! <<~not - PI!!",
];
/// One character of a text is replaced by any other, preceded by any other, or left out.
fn edit(bases: &[&'static str]) -> Vec<u8> {
    let b = bases[sym::choice(bases.len() as u64) as usize].as_bytes();
    let mut v = b.to_vec();
    let how = sym::choice(3);
    let at = sym::choice(b.len() as u64) as usize;
    if how == 2 { v.remove(at); return v }
    let c = sym::bits(7) as u8;
    if how == 0 { v[at] = c } else { v.insert(at, c) }
    v
}
const NOTOK: T = T { k: K::Comma, s: 0, e: 0 };
fn splits(b: &[u8]) {
    let sp = ManuallyDrop::new(DefaultSplitter::default());
    let t = ManuallyDrop::new(sp.split_into_tokens(as_str(b)));
    let (mut i, mut k) = (0, 0);
    while i < b.len() {
        if is_space(b[i]) { i += 1; continue }
        let e = lex_end(b, i);
        if k >= t.len() { sym::check(false, 1); return }
        let s = t[k].as_bytes();
        sym::check(s.len() == e - i, 2);
        let mut same = true;
        for q in 0..s.len() { same &= s[q] == b[i + q] }
        sym::check(same, 3);
        k += 1;
        i = e;
    }
    sym::check(k == t.len(), 4);
    sym::cover(1);
    sym::obs(k as u64);
}
fn tokens(b: &[u8]) {
    let c = ManuallyDrop::new(ctx::<H>());
    let tz: ManuallyDrop<Tokenizer<H>> = ManuallyDrop::new(Tokenizer::new());
    let got = ManuallyDrop::new(tz.tokenize(&c, as_str(b)));
    let mut r = [NOTOK; 40];
    let mut loose = None;
    let want = ref_tokens::<L1>(b, &mut r, &mut loose);
    match (&*got, want) {
        _ if loose.is_some() => { sym::cover(3); sym::obs(got.is_ok() as u64) }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 1),
        (Err(_), Some(_)) => sym::check(false, 2),
        (Ok(g), Some(n)) => {
            sym::check(g.len() == n, 3);
            for i in 0..n {
                let t = r[i];
                let w = &b[t.s..t.e];
                let ok = match (&g[i], t.k) {
                    (Token::Number(a), K::Num) => Some(*a) == H::of(w),
                    (Token::Variable(s), K::Var) | (Token::Constant(s), K::Const) | (Token::Function(s), K::Fun) | (Token::UnaryOperator(s), K::Un) | (Token::BinaryOperator(s), K::Bin) | (Token::Unknown(s), K::Unknown) => s.as_bytes() == w,
                    (Token::GroupingOpen(c), K::Open) | (Token::GroupingClose(c), K::Close) => *c as u32 == w[0] as u32,
                    (Token::Comma, K::Comma) => true,
                    _ => false,
                };
                sym::check(ok, 4);
            }
            sym::cover(1);
            sym::obs(n as u64);
        }
    }
}
fn evals(b: &[u8]) {
    let mut r = [NOTOK; 40];
    let mut loose = None;
    let want: Option<H> = match ref_tokens::<L1>(b, &mut r, &mut loose) { None => None, Some(n) => P::<L1> { b, t: &r[..n], i: 0, g: std::marker::PhantomData }.all() };
    let ev = ManuallyDrop::new(Evaluator::with_context(ctx::<H>()));
    let got = ManuallyDrop::new(ev.eval(as_str(b)));
    match (&*got, want) {
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
        (Ok(g), Some(w)) => { sym::check(*g == w, 1); sym::cover(1); sym::obs(g.0) }
    }
}
/// A name, numeral or run of operator characters of `n` characters with any character at one place,
/// alone or between others.
fn word(n: usize, two: bool) -> Vec<u8> {
    let mut v = vec![];
    let place = sym::choice(3);
    if place == 1 { v.extend(b"1+") }
    if place == 2 { v.extend(b"x ") }
    let s = v.len();
    let fill: &[u8] = [&b"ab_9Z"[..], b"1203", b"<=+|"][sym::choice(3) as usize];
    for i in 0..n { v.push(fill[i % fill.len()]) }
    let at = if n < 8 { sym::choice(n as u64) as usize } else { [0, 1, n / 2, n - 2, n - 1][sym::choice(5) as usize] };
    v[s + at] = sym::bits(7) as u8;
    if two && at + 1 < n { v[s + at + 1] = sym::bits(7) as u8 }
    if place > 0 { v.extend(b" -2") }
    v
}
/// Whitespace put before or after any token changes nothing.
fn spaced(b: &[u8], ws: &[&str]) {
    let mut p = 0;
    let mut starts = vec![];
    while p < b.len() { if is_space(b[p]) { p += 1 } else { starts.push(p); p = lex_end(b, p); starts.push(p) } }
    sym::assume(!starts.is_empty());
    let p = starts[sym::choice(starts.len() as u64) as usize];
    let w = ws[sym::choice(ws.len() as u64) as usize];
    let mut t = String::new();
    t.push_str(as_str(&b[..p])); t.push_str(w); t.push_str(as_str(&b[p..]));
    let sp = ManuallyDrop::new(DefaultSplitter::default());
    let x = ManuallyDrop::new(sp.split_into_tokens(as_str(b)));
    let y = ManuallyDrop::new(sp.split_into_tokens(&t));
    sym::check(x.len() == y.len(), 1);
    let mut same = true;
    for i in 0..x.len() { same &= x[i] == y[i]; }
    sym::check(same, 2);
    sym::cover(1);
    sym::obs(x.len() as u64);
}
const UNI: [&str; 12] = ["\u{a0}", "\u{e9}", "\u{3c0}", "\u{3000}", "\u{130}", "\u{df}", "\u{2212}", "\u{ff11}", "\u{1f600}", "\u{85}", "\u{301}", "\u{200b}"];
/// No panic with a non-ASCII character anywhere in a longer text, whatever the configuration.
fn uni() {
    let b = BASES[sym::choice(9) as usize];
    let p = sym::choice(b.len() as u64 + 1) as usize;
    let mut s = String::new();
    s.push_str(&b[..p]); s.push_str(UNI[sym::choice(12) as usize]);
    let skip = sym::flag() && p < b.len();
    s.push_str(&b[if skip { p + 1 } else { p }..]);
    let mut x = ctx_cfg::<H>(Config::new().with_implicit_mul(sym::flag()).with_complex_number(sym::flag()).with_custom_function_call(sym::flag()));
    if sym::flag() { let _ = x.set_variable("\u{3c0}", H::leaf(3)); let _ = x.set_variable("\u{e9}", H::leaf(3)); }
    let ev = ManuallyDrop::new(Evaluator::with_context(x));
    let got = ManuallyDrop::new(ev.eval(&s));
    match &*got { Ok(g) => { sym::cover(1); sym::obs(g.0) } Err(_) => sym::cover(2) }
}
/// No panic whatever the configuration.
fn opts() {
    let b = edit(&BASES);
    let x = ctx_cfg::<H>(Config::new().with_implicit_mul(sym::flag()).with_complex_number(sym::flag()).with_custom_function_call(sym::flag()));
    let ev = ManuallyDrop::new(Evaluator::with_context(x));
    let got = ManuallyDrop::new(ev.eval(as_str(&b)));
    match &*got { Ok(g) => { sym::cover(1); sym::obs(g.0) } Err(_) => sym::cover(2) }
}
fn big() -> usize { [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257][sym::choice(12) as usize] }
crate::entry! {
    h_txt_split { splits(&edit(&BASES)) }
    h_txt_tok { tokens(&edit(&BASES)) }
    h_txt_eval { evals(&edit(&BASES)) }
    h_txt_ws { spaced(&edit(&BASES), &[" ", "\t"]) }
    h_txt_wsu { spaced(BASES[sym::choice(9) as usize].as_bytes(), &["\n", "\r\n", "\u{b}", "\u{c}", "\u{85}", "\u{a0}", "\u{1680}", "\u{2003}", "\u{2028}", "\u{3000}", "     "]) }
    h_txt_uni { uni() }
    h_txt_opts { opts() }
    h_txt_wsplit { let n = sym::choice(20) as usize + 1; splits(&word(n, true)) }
    h_txt_wsplitbig { splits(&word(big(), false)) }
    h_txt_wtok { let n = sym::choice(20) as usize + 1; tokens(&word(n, false)) }
    h_txt_wtokbig { tokens(&word(big(), false)) }
}
