//! The complex context.
use crate::sym;
use num_complex::Complex;
use prexel::context::{Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use std::mem::ManuallyDrop;

type C = Complex<f64>;
fn ctx() -> ManuallyDrop<DefaultContext<'static, C>> { ManuallyDrop::new(DefaultContext::new_complex()) }
fn float() -> f64 { f64::from_bits(sym::bits(64)) }
fn any() -> C { C::new(float(), float()) }
fn feq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() & b.is_nan()) }
fn same(a: C, b: C) -> bool { feq(a.re, b.re) & feq(a.im, b.im) }
fn agree(r: Result<C, Error>, w: C) {
    match &*ManuallyDrop::new(r) {
        Ok(v) => { sym::cover(1); sym::check(same(*v, w), 1) }
        Err(_) => sym::check(false, 2),
    }
}
fn err(r: Result<C, Error>, k: ErrorKind, id: u32) {
    match &*ManuallyDrop::new(r) { Err(e) => { sym::cover(2); sym::check(e.kind() == k, id) } Ok(_) => sym::check(false, 4) }
}
const OPS: [&str; 6] = ["+", "-", "*", "/", "mod", "^"];
fn ops(lo: u64, hi: u64) {
    let c = ctx();
    let op = lo + sym::choice(hi - lo);
    let (a, b) = (any(), any());
    let zero = b.re == 0.0 && b.im == 0.0;
    let r = c.get_binary_function(OPS[op as usize]).unwrap().call(a, b);
    if zero && (op == 3 || op == 4) { return err(r, ErrorKind::DivisionByZero, 3) }
    agree(r, match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => a % b, _ => a.powc(b) });
}
fn unary() {
    let c = ctx();
    let a = any();
    if sym::choice(2) == 0 { agree(c.get_unary_function("-").unwrap().call(a), -a) } else { agree(c.get_unary_function("+").unwrap().call(a), a) }
}
fn fold() {
    let c = ctx();
    let a = [any(), any(), any()];
    let n = 1 + sym::choice(3) as usize;
    let op = sym::choice(3);
    let mut w = a[0];
    for x in &a[1..n] { w = if op == 1 { w * *x } else { w + *x } }
    if op == 2 { w = w / C::new(n as f64, 0.0) }
    agree(c.get_function(["sum", "product", "avg"][op as usize]).unwrap().call(&a[..n]), w);
}
const FUN: [(&str, fn(C) -> C); 28] = [
    ("sqrt", |x| x.sqrt()), ("ln", |x| x.ln()), ("exp", |x| x.exp()), ("log", |x| x.log(10.0)),
    ("sin", |x| x.sin()), ("cos", |x| x.cos()), ("tan", |x| x.tan()), ("csc", |x| x.sin().inv()), ("sec", |x| x.cos().inv()), ("cot", |x| x.tan().inv()),
    ("asin", |x| x.asin()), ("acos", |x| x.acos()), ("atan", |x| x.atan()), ("acsc", |x| x.inv().asin()), ("asec", |x| x.inv().acos()), ("acot", |x| x.inv().atan()),
    ("sinh", |x| x.sinh()), ("cosh", |x| x.cosh()), ("tanh", |x| x.tanh()), ("csch", |x| x.sinh().inv()), ("sech", |x| x.cosh().inv()), ("coth", |x| x.tanh().inv()),
    ("asinh", |x| x.asinh()), ("acosh", |x| x.acosh()), ("atanh", |x| x.atanh()), ("acsch", |x| x.inv().asinh()), ("asech", |x| x.inv().acosh()), ("acoth", |x| x.inv().atanh()),
];
fn fun(lo: usize, hi: usize) {
    let c = ctx();
    let (name, f) = FUN[lo + sym::choice((hi - lo) as u64) as usize];
    let x = any();
    match c.get_function(name) { None => sym::check(false, 5), Some(g) => agree(g.call(&[x]), f(x)) }
}
fn log2() {
    let c = ctx();
    let (x, b) = (any(), any());
    let r = c.get_function("log").unwrap().call(&[x, b]);
    if b.im == 0.0 { agree(r, x.log(b.re)) } else { err(r, ErrorKind::InvalidInput, 3) }
}
fn arity() {
    let c = ctx();
    let k = sym::choice(FUN.len() as u64 + 4) as usize;
    let a = [C::new(1.0, 0.0); 3];
    let (name, n) = match k {
        28 => ("sum", 0), 29 => ("product", 0), 30 => ("avg", 0), 31 => ("random", 3),
        3 => ("log", [0, 3][sym::choice(2) as usize]),
        k => (FUN[k].0, [0, 2, 3][sym::choice(3) as usize]),
    };
    match c.get_function(name) { None => sym::check(false, 5), Some(f) => err(f.call(&a[..n]), ErrorKind::InvalidArgumentCount, 6) }
}
fn constants() {
    let c = ctx();
    let k = sym::choice(3) as usize;
    let w = [C::new(std::f64::consts::PI, 0.0), C::new(std::f64::consts::E, 0.0), C::new(0.0, 1.0)][k];
    sym::cover(1);
    sym::check(match c.get_constant(["PI", "E", "i"][k]) { Some(v) => same(*v, w), None => false }, 7);
}
fn random(n: usize) {
    let c = ctx();
    let f = c.get_function("random").unwrap();
    let (x, y) = (any(), any());
    let fin = |x: f64| !(x.is_nan() | x.is_infinite());
    let (lo, hi) = match n { 0 => (0.0, 1.0), 1 => (0.0, x.re), _ => (x.re, y.re) };
    sym::assume(fin(lo) & fin(hi));
    // products of any two floats are beyond the solver
    if n == 1 { sym::assume(hi.to_bits() & ((1 << 44) - 1) == 0) }
    let real = (n == 0 || x.im == 0.0) && (n < 2 || y.im == 0.0);
    match &*ManuallyDrop::new(f.call(&[x, y][..n])) {
        Ok(v) => { sym::cover(1); sym::check(real, 8); for u in [v.re, v.im] { sym::check(lo <= u, 8); sym::check(u <= hi, 8) } }
        // -0 may be taken for a negative number
        Err(_) => { sym::cover(2); sym::check(!real || lo > hi || (n == 1 && hi == 0.0), 2) }
    }
}
crate::entry! {
    h_z_add { ops(0, 2) }
    h_z_mul { ops(2, 3) }
    h_z_div { ops(3, 4) }
    h_z_rem { ops(4, 5) }
    h_z_pow { ops(5, 6) }
    h_z_unary { unary() }
    h_z_fold { fold() }
    h_z_fun1 { fun(0, 4) }
    h_z_fun2 { fun(4, 10) }
    h_z_fun3 { fun(10, 16) }
    h_z_fun4 { fun(16, 22) }
    h_z_fun5 { fun(22, 28) }
    h_z_log2 { log2() }
    h_z_arity { arity() }
    h_z_const { constants() }
    h_z_random { random(if sym::choice(2) == 0 { 0 } else { 2 }) }
    h_z_random1 { random(1) }
}
