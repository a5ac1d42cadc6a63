//! Failing operations and undefined names, at token level.
use crate::common::Ast;
use crate::eval::*;
use crate::sym;
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::evaluator::Evaluator;
use prexel::function::*;
use prexel::token::Token;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::cell::Cell;
use std::rc::Rc;

const KINDS: [ErrorKind; 11] = [ErrorKind::Overflow, ErrorKind::Zero, ErrorKind::NAN, ErrorKind::InvalidInput, ErrorKind::InvalidArgumentCount, ErrorKind::DivisionByZero, ErrorKind::NegativeValue, ErrorKind::PositiveValue, ErrorKind::InvalidExpression, ErrorKind::Empty, ErrorKind::Unknown];
/// Counts the calls and lets the `fail`-th one fail.
#[derive(Clone)]
struct Meter { calls: Rc<Cell<u64>>, fail: u64, kind: ErrorKind }
impl Meter {
    fn run(&self, v: Ast) -> prexel::Result<Ast> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.fail { Err(Error::from(self.kind)) } else { Ok(v) }
    }
}
struct MB(B, Meter);
impl BinaryFunction<Ast> for MB {
    fn name(&self) -> &str { BinaryFunction::<Ast>::name(&self.0) }
    fn precedence(&self) -> Precedence { BinaryFunction::<Ast>::precedence(&self.0) }
    fn associativity(&self) -> Associativity { BinaryFunction::<Ast>::associativity(&self.0) }
    fn call(&self, l: Ast, r: Ast) -> prexel::Result<Ast> { self.1.run(self.0.call(l, r)?) }
}
struct MU(U, Meter);
impl UnaryFunction<Ast> for MU {
    fn name(&self) -> &str { UnaryFunction::<Ast>::name(&self.0) }
    fn notation(&self) -> Notation { UnaryFunction::<Ast>::notation(&self.0) }
    fn call(&self, v: Ast) -> prexel::Result<Ast> { self.1.run(self.0.call(v)?) }
}
struct MF(F, Meter);
impl Function<Ast> for MF {
    fn name(&self) -> &str { Function::<Ast>::name(&self.0) }
    fn call(&self, a: &[Ast]) -> prexel::Result<Ast> { self.1.run(self.0.call(a)?) }
}

fn fails<const L: usize>(allowed: u64) {
    let c = Cfg { prec: [20, 10, 10], right: [false, false, false], implicit: false, custom_call: false };
    let s = Seq::<L>::new(allowed);
    let want: Option<Ast> = Ref { k: &s.kinds, i: 0, c: &c }.all();
    sym::assume(want.is_some());
    let mut ops = 0;
    for k in s.kinds { if matches!(k, PRE | POST | FUN) || (k >= OPS && k < OPS + 3) { ops += 1 } }
    let m = Meter { calls: Rc::new(Cell::new(0)), fail: sym::below(L as u64 + 1), kind: KINDS[sym::below(11) as usize] };
    let mut x: DefaultContext<Ast> = DefaultContext::with_config(Config::new());
    for (i, n) in ["*", "+", "?"].iter().enumerate() { let _ = x.add_binary_function(MB(B(n, i as u64 + 1, c.prec[i], false), m.clone())); }
    let _ = x.add_unary_function(MU(U("~", 4, false), m.clone()));
    let _ = x.add_unary_function(MU(U("!", 5, true), m.clone()));
    let _ = x.add_function(MF(F("f", 7), m.clone()));
    let _ = x.add_constant("k", Ast::leaf(0));
    let _ = x.set_variable("x", Ast::leaf(1));
    let ev = ManuallyDrop::new(Evaluator::with_context(x));
    let got = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    let calls = m.calls.get();
    match &*got {
        Ok(v) => { sym::cover(1); sym::check(ops <= m.fail, 1); sym::check(Some(*v) == want, 2); sym::check(calls == ops, 3) }
        Err(e) => { sym::cover(2); sym::check(ops > m.fail, 4); sym::check(e.kind() == m.kind, 5); sym::check(calls == m.fail + 1, 6) }
    }
}

const BAD: usize = 9;
/// Tokens that mean nothing in the context, and some that do.
fn bad(i: usize) -> [ManuallyDrop<Token<Ast>>; 16] {
    let s = |x: &str| x.to_string();
    [
        Token::Variable(s("nope")), Token::Constant(s("nope")), Token::Function(s("nope")), Token::UnaryOperator(s("nope")), Token::BinaryOperator(s("nope")),
        Token::Unknown(s("nope")), Token::ArgCount(1), Token::GroupingOpen('<'), Token::GroupingClose('>'),
        Token::Number(Ast::leaf(i as u64 + 2)), Token::GroupingOpen('('), Token::GroupingClose(')'), Token::UnaryOperator(s("~")), Token::BinaryOperator(s("*")), Token::Function(s("f")), Token::Comma,
    ].map(ManuallyDrop::new)
}
/// Any sequence that contains one of the meaningless tokens is an error.
fn undefined<const L: usize>(implicit: bool) {
    const W: usize = std::mem::size_of::<Token<Ast>>() / 8;
    let mut toks: [MaybeUninit<Token<Ast>>; L] = unsafe { MaybeUninit::uninit().assume_init() };
    let mut any = false;
    for i in 0..L {
        let k = sym::bits(4);
        any |= (k as usize) < BAD;
        let t = ManuallyDrop::new(bad(i));
        let (src, dst) = (t.as_ptr() as *const u64, toks[i].as_mut_ptr() as *mut u64);
        for w in 0..W { unsafe { dst.add(w).write_volatile(src.add(k as usize * W + w).read_volatile()) } }
    }
    sym::assume(any);
    let c = Cfg { prec: [20, 10, 10], right: [false, false, false], implicit, custom_call: false };
    let ev = ManuallyDrop::new(Evaluator::with_context(context(&c)));
    let got = ManuallyDrop::new(ev.eval_tokens(unsafe { std::slice::from_raw_parts(toks.as_ptr() as *const Token<Ast>, L) }));
    sym::cover(1);
    sym::check(got.is_err(), 7);
}
/// Variables are read when the expression is evaluated; evaluating changes nothing.
fn again<const L: usize>() {
    let c = Cfg { prec: [20, 10, 10], right: [false, false, false], implicit: false, custom_call: false };
    let s = Seq::<L>::new(1 << NUM | 1 << VAR | 1 << OPEN | 1 << CLOSE | 1 << FUN | 1 << COMMA | 1 << OPS);
    sym::assume(Ref { k: &s.kinds, i: 0, c: &c }.all::<Ast>().is_some());
    let mut ev = ManuallyDrop::new(Evaluator::with_context(context(&c)));
    let a = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    let b = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    let Ok(a) = &*a else { return };
    sym::check(matches!(&*b, Ok(b) if a == b), 8);
    let old = ManuallyDrop::new(ev.mut_context().set_variable("x", Ast::leaf(9)));
    sym::check(matches!(&*old, Ok(Some(o)) if *o == Ast::leaf(1)), 9);
    let d = ManuallyDrop::new(ev.eval_tokens(s.slice()));
    let Ok(d) = &*d else { sym::check(false, 8); return };
    // the codes differ exactly in the leaves of the variable
    let (mut uses, mut hi, mut lo) = (0u64, 0u64, 0u64);
    for k in s.kinds { uses += (k == VAR) as u64 }
    let (xh, xl) = (a.hi ^ d.hi, a.lo ^ d.lo);
    hi += (xh.count_ones()) as u64; lo += (xl.count_ones()) as u64;
    sym::cover(1);
    sym::check(hi + lo == uses, 10);
}
crate::entry! {
    h_err_fail5 { fails::<5>(FALL) }
    h_err_fail6 { fails::<6>(FALL) }
    h_err_fail7 { fails::<7>(FALL) }
    h_err_fail8f { fails::<8>(1 << NUM | 1 << OPEN | 1 << CLOSE | 1 << FUN | 1 << COMMA | 1 << OPS) }
    h_err_fail8 { fails::<8>(FALL) }
    h_err_undefs { match sym::choice(4) { 0 => undefined::<1>(sym::flag()), 1 => undefined::<2>(sym::flag()), 2 => undefined::<3>(sym::flag()), _ => undefined::<4>(sym::flag()) } }
    h_err_fails { match sym::choice(4) { 0 => fails::<1>(FALL), 1 => fails::<2>(FALL), 2 => fails::<3>(FALL), _ => fails::<4>(FALL) } }
    h_err_undef3 { undefined::<3>(false) }
    h_err_undef4 { undefined::<4>(false) }
    h_err_undef5 { undefined::<5>(false) }
    h_err_undef6 { undefined::<6>(false) }
    h_err_fail9 { fails::<9>(FALL) }
    h_err_undefi4 { undefined::<4>(true) }
    h_err_again5 { again::<5>() }
    h_err_again7 { again::<7>() }
}
const FALL: u64 = 1 << NUM | 1 << OPEN | 1 << CLOSE | 1 << PRE | 1 << POST | 1 << FUN | 1 << COMMA | 3 << OPS;
