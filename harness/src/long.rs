//! Long and deeply nested token sequences.
use crate::eval::*;
use crate::sym;
use prexel::evaluator::Evaluator;
use prexel::token::Token;
use std::mem::ManuallyDrop;

/// A hash of the operations applied: every structure below is concrete on its path.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct H(u64);
impl std::str::FromStr for H { type Err = (); fn from_str(_: &str) -> Result<H, ()> { Err(()) } }
impl Rec for H {
    fn nil() -> H { H(0x9E37_79B9_7F4A_7C15) }
    fn leaf(n: u64) -> H { H::nil().push(n).push(77) }
    fn push(self, n: u64) -> H { H((self.0.rotate_left(23) ^ n).wrapping_mul(0xD6E8_FEB8_6659_FD93).wrapping_add(1)) }
    fn cat(self, r: H) -> H { self.push(r.0).push(91) }
}
fn judge(kinds: &[u64], c: Cfg) {
    let mut t: Vec<Token<H>> = Vec::with_capacity(kinds.len());
    for (i, k) in kinds.iter().enumerate() {
        let mut e = table::<H>(i);
        t.push(unsafe { ManuallyDrop::take(&mut e[*k as usize]) });
    }
    let t = ManuallyDrop::new(t);
    let want: Option<H> = Ref { k: kinds, i: 0, c: &c }.all();
    let ev = ManuallyDrop::new(Evaluator::with_context(context(&c)));
    let got = ManuallyDrop::new(ev.eval_tokens(&t));
    match (&*got, want) {
        (Ok(g), Some(w)) => { sym::cover(1); sym::obs(g.0); sym::check(*g == w, 1) }
        (Err(_), None) => sym::cover(2),
        (Ok(_), None) => sym::check(false, 2),
        (Err(_), Some(_)) => sym::check(false, 3),
    }
}
fn fixed(implicit: bool) -> Cfg { Cfg { prec: [20, 10, 10], right: [false; 3], implicit, custom_call: false } }
/// `f` of `n` arguments, itself an argument at one place of an `f` of others.
fn args(n: usize) {
    let mut k = vec![];
    let at = sym::choice(4);
    if at > 0 { k.extend([FUN, OPEN, NUM, COMMA]); }
    if at > 1 { k.extend([NUM, OPS, NUM, COMMA]); }
    if at > 2 { k.extend([FUN, OPEN, CLOSE, COMMA]); }
    k.extend([FUN, OPEN]);
    for i in 0..n { if i > 0 { k.push(COMMA) } k.push(NUM); }
    k.push(CLOSE);
    if at > 0 { k.extend([COMMA, PRE, NUM, CLOSE]); }
    k.extend([OPS + 1, NUM]);
    judge(&k, fixed(false));
}
/// Arguments that are themselves calls, groups, or chains of operators.
fn argskinds(n: usize) {
    let mut k = vec![FUN, OPEN];
    let w = sym::choice(7);
    for i in 0..n {
        if i > 0 { k.push(COMMA) }
        match w {
            0 => k.extend([FUN, OPEN, NUM, CLOSE]),
            1 => k.extend([OPEN, NUM, CLOSE]),
            2 => k.extend([FUN, OPEN, CLOSE]),
            3 => k.extend([NUM, OPS, NUM, OPS + 1, VAR]),
            4 => k.extend([PRE, CONST, POST]),
            5 => k.extend([OPEN2, NUM, CLOSE2]),
            _ => k.extend([FUN, OPEN, NUM, COMMA, NUM, CLOSE]),
        }
    }
    k.push(CLOSE);
    judge(&k, fixed(false));
}
/// `d` levels of nesting of a kind; balanced, or with one closing symbol too few or too many.
fn deep(d: usize) {
    let w = sym::choice(8);
    let lack = sym::choice(3);
    let (mut k, mut end) = (vec![], vec![]);
    for i in 0..d {
        match w {
            0 => { k.push(OPEN); end.push(CLOSE) }
            1 => { k.push(OPEN2); end.push(CLOSE2) }
            2 => { k.extend([FUN, OPEN]); end.push(CLOSE) }
            3 => { k.extend([PRE, OPEN]); end.push(CLOSE) }
            4 => { k.extend([NUM, OPS + 1, OPEN]); end.push(CLOSE) }
            5 => { k.extend([FUN, OPEN, NUM, COMMA]); end.push(CLOSE) }
            6 => if i % 2 == 0 { k.push(OPEN); end.push(CLOSE) } else { k.push(OPEN2); end.push(CLOSE2) },
            _ => if i % 3 == 0 { k.extend([FUN, OPEN]); end.push(CLOSE) } else { k.extend([PRE, OPEN2]); end.push(CLOSE2) },
        }
    }
    end.reverse();
    if lack == 1 { end.pop(); }
    if lack == 2 { let c = *end.last().unwrap(); end.push(c); }
    k.push(NUM);
    k.extend(end);
    judge(&k, fixed(false));
}
/// Chains of `n` operators in a repeating pattern, with any precedences and associativities.
fn chain(n: usize) {
    const P: [&[u64]; 7] = [&[0], &[0, 1], &[0, 1, 2], &[0, 0, 1], &[0, 1, 1, 2], &[2, 1, 0, 1], &[0, 1, 0, 2]];
    let p = P[sym::choice(7) as usize];
    let mut k = vec![];
    for i in 0..n {
        k.push(if i % 5 == 3 { VAR } else { NUM });
        k.push(OPS + p[i % p.len()]);
    }
    k.push(CONST);
    judge(&k, cfg(false));
}
/// Runs of prefix and postfix operators.
fn runs(n: usize) {
    let w = sym::choice(4);
    let mut k = vec![];
    if w > 0 { k.extend([NUM, OPS]); }
    for _ in 0..n { k.push(PRE) }
    k.push(if w == 2 { VAR } else { NUM });
    for _ in 0..n { k.push(POST) }
    if w == 3 { k.extend([OPS + 1, NUM]); }
    judge(&k, fixed(false));
}
/// Many factors without an operator between them.
fn factors(n: usize) {
    let w = sym::choice(5);
    let mut k = vec![];
    if w == 4 { k.extend([NUM, OPS + 1]) }
    for _ in 0..n {
        match w {
            0 => k.extend([NUM, VAR, OPS]),
            1 => k.extend([OPEN, NUM, CLOSE]),
            2 => k.extend([NUM, FUN, OPEN, NUM, CLOSE, OPS + 1]),
            3 => k.extend([OPEN, NUM, OPS + 1, NUM, CLOSE]),
            _ => k.extend([OPEN, NUM, CLOSE]),
        }
    }
    if w == 0 || w == 2 { k.push(NUM) }
    judge(&k, fixed(true));
}
const BASES: [&[u64]; 8] = [
    &[FUN, OPEN, NUM, OPS, VAR, COMMA, PRE, OPEN, NUM, OPS + 1, CONST, CLOSE, POST, CLOSE, OPS + 2, NUM],
    &[OPEN, OPEN2, NUM, OPS + 1, NUM, CLOSE2, OPS, OPEN, VAR, CLOSE, CLOSE, OPS + 2, PRE, NUM],
    &[FUN, OPEN, FUN, OPEN, CLOSE, COMMA, FUN, OPEN, NUM, COMMA, NUM, COMMA, NUM, CLOSE, CLOSE, OPS, NUM, POST],
    &[NUM, OPS, NUM, OPS + 1, NUM, OPS + 2, NUM, OPS, NUM, OPS + 1, PRE, PRE, VAR, POST, POST, OPS + 2, NUM],
    &[PRE, OPEN2, FUN, OPEN, OPEN2, NUM, CLOSE2, COMMA, OPEN, NUM, CLOSE, CLOSE, CLOSE2, POST, OPS + 1, CONST],
    &[OPEN, OPEN, OPEN, OPEN2, OPEN2, NUM, CLOSE2, CLOSE2, CLOSE, CLOSE, CLOSE, OPS, OPEN, NUM, CLOSE],
    &[FUN, OPEN, NUM, CLOSE, OPS, FUN, OPEN, NUM, COMMA, VAR, CLOSE, OPS + 1, FUN, OPEN, CLOSE],
    &[PRE, FUN, OPEN, PRE, NUM, COMMA, NUM, OPS, PRE, OPEN, NUM, POST, CLOSE, CLOSE, POST, OPS + 2, PRE, VAR],
];
/// A token of a longer sequence is replaced by any other, preceded by any other, or left out.
fn edit(c: Cfg, bases: &[&[u64]]) {
    let b = bases[sym::choice(bases.len() as u64) as usize];
    let mut k = b.to_vec();
    let how = sym::choice(3);
    let at = sym::choice(b.len() as u64) as usize;
    if how == 0 { k[at] = sym::choice(NKIND) }
    if how == 1 { k.insert(at, sym::choice(NKIND)) }
    if how == 2 { k.remove(at); }
    judge(&k, c);
}
/// Two tokens are exchanged.
fn swap(c: Cfg) {
    let b = BASES[sym::choice(BASES.len() as u64) as usize];
    let mut k = b.to_vec();
    let i = sym::choice(b.len() as u64) as usize;
    let j = sym::choice(b.len() as u64) as usize;
    sym::assume(i < j);
    k.swap(i, j);
    judge(&k, c);
}
fn edge() -> usize { [127, 128, 255, 256, 257, 511, 512][sym::choice(7) as usize] }
crate::entry! {
    h_long_args { args(sym::choice(41) as usize) }
    h_long_argk { argskinds(sym::choice(20) as usize + 1) }
    h_long_argbig { args(edge()) }
    h_long_deep { deep(sym::choice(40) as usize + 1) }
    h_long_deepbig { deep(edge() / 4 + 2) }
    h_long_chain { chain(sym::choice(30) as usize + 3) }
    h_long_runs { runs(sym::choice(40) as usize + 1) }
    h_long_runbig { runs(edge()) }
    h_long_edit { edit(cfg(false), &BASES) }
    h_long_editi { edit(fixed(true), &BASES) }
    h_long_swap { swap(fixed(false)) }
    h_long_swapi { swap(fixed(true)) }
    h_long_fact { factors(sym::choice(20) as usize + 1) }
}
