//! The binary context: bit operations, their precedence, numerals.
use crate::sym;
use crate::tok::{as_str, ascii};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::ErrorKind;
use prexel::evaluator::Evaluator;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use std::mem::ManuallyDrop;

fn any() -> i128 { ((sym::bits(64) as u128) << 64 | sym::bits(64) as u128) as i128 }
/// Names of an operator and its rank (higher binds tighter, as in C).
const OPS: [(&[&str], u32); 11] = [
    (&["&", "and"], 3), (&["|", "or"], 1), (&["^", "xor"], 2), (&["==", "eq", "equal"], 4), (&["!=", "ne", "no_equal"], 4),
    (&[">", "gt"], 5), (&["<", "lt"], 5), (&[">=", "gte"], 5), (&["<=", "lte"], 5), (&[">>", "shr"], 6), (&["<<", "shl"], 6),
];
fn op(k: usize, a: i128, b: i128) -> Option<i128> {
    Some(match k {
        0 => a & b, 1 => a | b, 2 => a ^ b, 3 => (a == b) as i128, 4 => (a != b) as i128,
        5 => (a > b) as i128, 6 => (a < b) as i128, 7 => (a >= b) as i128, 8 => (a <= b) as i128,
        9 => { if !(0..128).contains(&b) { return None } a >> b as u32 }
        _ => { if !(0..128).contains(&b) { return None } ((a as u128) << b as u32) as i128 }
    })
}
fn ops() {
    let c = ManuallyDrop::new(DefaultContext::<Binary>::new_binary());
    let k = sym::choice(11) as usize;
    let n = OPS[k].0[sym::choice(OPS[k].0.len() as u64) as usize];
    let (a, b) = (any(), any());
    let Some(f) = c.get_binary_function(n) else { sym::check(false, 4); return };
    let r = ManuallyDrop::new(f.call(Binary(a), Binary(b)));
    match (&*r, op(k, a, b)) {
        (Ok(v), Some(w)) => { sym::cover(1); sym::check(v.0 == w, 1) }
        (Ok(v), None) => sym::check(k == 9 && b >= 128 && v.0 == if a < 0 { -1 } else { 0 } || k == 10 && b >= 128 && v.0 == 0, 2),
        (Err(e), None) => { sym::cover(2); sym::check(e.kind() == ErrorKind::Overflow || e.kind() == ErrorKind::NegativeValue || e.kind() == ErrorKind::InvalidInput, 2) }
        (Err(_), Some(_)) => sym::check(false, 2),
    }
}
fn not() {
    let c = ManuallyDrop::new(DefaultContext::<Binary>::new_binary());
    let a = any();
    let n = ["~", "not", "NOT"][sym::choice(3) as usize];
    let Some(f) = c.get_unary_function(n) else { sym::check(false, 4); return };
    sym::check(matches!(f.call(Binary(a)), Ok(Binary(v)) if v == -1 - a), 1);
    sym::cover(1);
}
/// `a . b . c`, each operand possibly complemented, over every pair of operators.
fn prec(any: fn() -> i128) {
    let ev = ManuallyDrop::new(Evaluator::with_context(DefaultContext::<Binary>::new_binary()));
    let (k, l) = (sym::choice(11) as usize, sym::choice(11) as usize);
    let v = [any(), any(), any()];
    let neg = sym::choice(4);
    let mut t: Vec<Token<Binary>> = vec![];
    let mut w = v;
    for i in 0..3 {
        if neg == i as u64 { t.push(Token::UnaryOperator("~".to_string())); w[i] = !v[i] }
        t.push(Token::Number(Binary(v[i])));
        if i < 2 { t.push(Token::BinaryOperator(OPS[if i == 0 { k } else { l }].0[0].to_string())) }
    }
    let t = ManuallyDrop::new(t);
    let r = ManuallyDrop::new(ev.eval_tokens(&t));
    let want = if OPS[k].1 >= OPS[l].1 { op(k, w[0], w[1]).and_then(|x| op(l, x, w[2])) } else { op(l, w[1], w[2]).and_then(|x| op(k, w[0], x)) };
    match (&*r, want) {
        (Ok(x), Some(y)) => { sym::cover(1); sym::check(x.0 == y, 3) }
        (Err(_), Some(_)) => sym::check(false, 2),
        _ => {}
    }
}
/// Value of a numeral: decimal digits, or `b` and binary digits.
fn numeral(s: &[u8]) -> Option<i128> {
    let (d, base) = match s.first() { Some(b'b') => (&s[1..], 2), _ => (s, 10) };
    if d.is_empty() { return None }
    let mut v = 0i128;
    for &c in d { let x = c.wrapping_sub(b'0'); if x >= base { return None } v = v * base as i128 + x as i128 }
    Some(v)
}
fn parse<const L: usize>() {
    let b = ascii::<L>();
    let n = sym::choice(L as u64 + 1) as usize;
    let s = &b[..n];
    // a sign is never part of a lexeme
    let first = if n > 0 && s[0] == b'b' { 1 } else { 0 };
    sym::assume(n <= first || (s[first] != b'-' && s[first] != b'+'));
    let r = as_str(s).parse::<Binary>();
    let want = numeral(s);
    if want.is_some() { sym::cover(1) } else { sym::cover(2) }
    sym::check(match (&r, want) { (Ok(v), Some(w)) => v.0 == w, (Err(_), None) => true, _ => false }, 5);
}

// strings
const AB: [u8; 8] = [b'b', b'0', b'1', b'2', b'&', b'|', b'~', b' '];
const AB2: [u8; 8] = [b'b', b'1', b'<', b'=', b'^', b'(', b')', b'>'];
fn pick<const L: usize>(ab: &[u8; 8]) -> [u8; L] {
    let mut b = [0u8; L];
    for i in 0..L { b[i] = ab[sym::bits(3) as usize]; }
    b
}
struct P<'a> { b: &'a [u8], i: usize }
impl P<'_> {
    fn skip(&mut self) { while self.i < self.b.len() && self.b[self.i] == b' ' { self.i += 1 } }
    /// Extent of the next lexeme.
    fn end(&self) -> usize {
        let b = self.b;
        let c = b[self.i];
        let mut j = self.i + 1;
        if c == b'b' {
            if j < b.len() && (b[j] == b'0' || b[j] == b'1') { while j < b.len() && b[j].is_ascii_digit() { j += 1 } }
            else { while j < b.len() && (b[j].is_ascii_digit() || b[j] == b'b') { j += 1 } }
        }
        else if c.is_ascii_digit() { while j < b.len() && b[j].is_ascii_digit() { j += 1 } }
        else if !matches!(c, b'(' | b')') { while j < b.len() && matches!(b[j], b'&' | b'|' | b'~' | b'<' | b'>' | b'=' | b'^') { j += 1 } }
        j
    }
    fn operand(&mut self) -> Option<Option<i128>> {
        self.skip();
        if self.i == self.b.len() { return None }
        let e = self.end();
        let w = &self.b[self.i..e];
        if w == b"~" { self.i = e; return Some(self.operand()?.map(|v| !v)) }
        if w == b"(" { self.i = e; let v = self.expr(0)?; self.skip(); if self.i < self.b.len() && self.b[self.i] == b')' { self.i += 1; return Some(v) } return None }
        let v = numeral(w)?;
        self.i = e;
        Some(Some(v))
    }
    /// None: malformed; Some(None): a shift fails
    fn expr(&mut self, min: u32) -> Option<Option<i128>> {
        let mut l = self.operand()?;
        loop {
            self.skip();
            if self.i == self.b.len() { return Some(l) }
            let e = self.end();
            let w = &self.b[self.i..e];
            if w == b")" { return Some(l) }
            let k = OPS.iter().position(|o| o.0[0].as_bytes() == w)?;
            if OPS[k].1 <= min { return Some(l) }
            self.i = e;
            let r = self.expr(OPS[k].1)?;
            l = match (l, r) { (Some(a), Some(b)) => op(k, a, b), _ => None };
        }
    }
}
fn strings<const L: usize>(ab: &[u8; 8], only: bool) {
    let b = pick::<L>(ab);
    let mut p = P { b: &b, i: 0 };
    let want = p.expr(0);
    let want = if want.is_some() && p.i == L { want } else { None };
    if only { sym::assume(want.is_some()) }
    let ev = ManuallyDrop::new(Evaluator::with_context_and_tokenizer(DefaultContext::<Binary>::with_config_binary(Config::new()), Tokenizer::with_splitter(binary_number_splitter())));
    let r = ManuallyDrop::new(ev.eval(as_str(&b)));
    match (&*r, want) {
        (Ok(v), Some(Some(w))) => { sym::cover(1); sym::check(v.0 == w, 6) }
        (Err(_), Some(Some(_))) => sym::check(false, 7),
        (Ok(_), None) => sym::check(false, 8),
        _ => sym::cover(2),
    }
}
crate::entry! {
    h_b_ops { ops() }
    h_b_not { not() }
    h_b_prec { prec(|| sym::bits(8) as i8 as i128) }
    h_b_precw { prec(any) }
    h_b_parse5 { parse::<5>() }
    h_b_parse8 { parse::<8>() }
    h_b_strs { match sym::choice(8) { 0 => strings::<1>(&AB, false), 1 => strings::<2>(&AB, false), 2 => strings::<3>(&AB, false), 3 => strings::<4>(&AB, false), 4 => strings::<1>(&AB2, false), 5 => strings::<2>(&AB2, false), 6 => strings::<3>(&AB2, false), _ => strings::<4>(&AB2, false) } }
    h_b_str4 { strings::<4>(&AB, false) }
    h_b_str5 { strings::<5>(&AB, false) }
    h_b_str7 { strings::<7>(&AB, true) }
    h_b_strb5 { strings::<5>(&AB2, false) }
    h_b_strb7 { strings::<7>(&AB2, true) }
    h_b_strb8 { strings::<8>(&AB2, true) }
}
