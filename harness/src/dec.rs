//! The decimal context.
use crate::sym;
use prexel::context::{Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use rust_decimal::Decimal;
use std::mem::ManuallyDrop;

fn ctx() -> ManuallyDrop<DefaultContext<'static, Decimal>> { ManuallyDrop::new(DefaultContext::new_decimal()) }
/// Any 96-bit mantissa with the given scale.
fn any(scale: u32) -> Decimal { Decimal::from_parts(sym::bits(32) as u32, sym::bits(32) as u32, sym::bits(32) as u32, sym::flag(), scale) }
fn small(bits: u32, scale: u32) -> Decimal { Decimal::from_parts(sym::bits(bits) as u32, 0, 0, sym::flag(), scale) }
/// Numbers within 2^bits of the largest and the smallest ones.
fn huge(bits: u32) -> Decimal { Decimal::from_parts(!(sym::bits(bits) as u32), !0, !0, sym::flag(), 0) }
fn pick(n: u64) -> Decimal {
    match sym::choice(n) { 0 => small(8, 0), 1 => huge(8), _ => small(8, 2) }
}
fn same(a: Decimal, b: Decimal) -> bool { a.serialize() == b.serialize() || a == b }
/// `r` is the value `w`, or the error `k` if there is none.
fn agree(r: Result<Decimal, Error>, w: Option<Decimal>, k: ErrorKind) {
    let r = ManuallyDrop::new(r);
    match (&*r, w) {
        (Ok(v), Some(w)) => { sym::cover(1); sym::check(same(*v, w), 1) }
        (Err(e), None) => { sym::cover(2); sym::check(e.kind() == k, 3) }
        _ => sym::check(false, 2),
    }
}
const OPS: [&str; 5] = ["+", "-", "*", "/", "mod"];
fn pair(lo: u64, hi: u64, a: Decimal, b: Decimal) {
    let c = ctx();
    let op = lo + sym::choice(hi - lo);
    let w = match op { 0 => a.checked_add(b), 1 => a.checked_sub(b), 2 => a.checked_mul(b), 3 => a.checked_div(b), _ => a.checked_rem(b) };
    agree(c.get_binary_function(OPS[op as usize]).unwrap().call(a, b), w, if op >= 3 && b.is_zero() { ErrorKind::DivisionByZero } else { ErrorKind::Overflow });
}
fn divisor(k: u64) -> Decimal {
    match k { 0 => Decimal::ZERO, 1 => Decimal::ONE, 2 => Decimal::new(-3, 0), 3 => Decimal::new(5, 1), 4 => Decimal::new(-7, 28), 5 => Decimal::MAX, 6 => Decimal::new(0, 5), _ => Decimal::new(1, 28) }
}
fn number(k: u64) -> Decimal {
    match k { 0 => Decimal::ZERO, 1 => Decimal::new(-45, 1), 2 => Decimal::MAX, 3 => Decimal::MIN, _ => Decimal::new(123456789, 3) }
}
fn fold(op: u64, max: u64) {
    let c = ctx();
    let n = 1 + sym::choice(max) as usize;
    // the kinds of the numbers, then the numbers
    let mut a = [Decimal::ZERO; 3];
    for x in &mut a[..n] { *x = if op == 2 { number(sym::choice(5)) } else if op == 4 { small(5, 1) } else if op == 1 { if sym::choice(2) == 0 { small(8, 1) } else { huge(1) } } else { pick(2) } }
    let mut w = Some(a[0]);
    for x in &a[1..n] { w = w.and_then(|s| if op & 3 != 2 && op > 0 { s.checked_mul(*x) } else { s.checked_add(*x) }) }
    if op == 2 { w = w.and_then(|s| s.checked_div(Decimal::from(n as u32))) }
    agree(c.get_function(["sum", "product", "avg", "", "product"][op as usize]).unwrap().call(&a[..n]), w, ErrorKind::Overflow);
}
fn unary() {
    let c = ctx();
    let a = any(sym::choice(3) as u32 * 14);
    if sym::choice(2) == 0 { agree(c.get_unary_function("-").unwrap().call(a), Some(-a), ErrorKind::Unknown) }
    else { agree(c.get_unary_function("+").unwrap().call(a), Some(a), ErrorKind::Unknown) }
}
fn bounds() {
    let c = ctx();
    let n = 2 + sym::choice(2) as usize;
    let s = sym::choice(2) as u32 * 3;
    let mut a = [Decimal::ZERO; 3];
    for x in &mut a[..n] { *x = small(32, s) }
    let max = sym::choice(2) == 0;
    let r = ManuallyDrop::new(c.get_function(if max { "max" } else { "min" }).unwrap().call(&a[..n]));
    match &*r {
        Ok(v) => {
            sym::cover(1);
            let key = |d: &Decimal| d.mantissa() as i64;
            let mut one = false;
            for x in &a[..n] { one |= key(x) == key(v); sym::check(if max { key(x) <= key(v) } else { key(x) >= key(v) }, 5); }
            sym::check(one && v.scale() == s, 5);
        }
        Err(_) => sym::check(false, 2),
    }
}
fn rounding(bits: u32) {
    let c = ctx();
    let k = sym::choice(4) as usize;
    let s = sym::choice(4) as u32;
    let a = small(bits, s);
    let m = a.mantissa() as i64;
    let p = [1, 10, 100, 1000][s as usize];
    let (down, rest) = (m.div_euclid(p), m.rem_euclid(p));
    let w = match k {
        0 => down,
        1 => down + (rest != 0) as i64,
        2 => m / p,
        // halves are rounded to the even neighbour, as `Decimal::round` documents
        _ => if 2 * rest > p || (2 * rest == p && down & 1 == 1) { down + 1 } else { down },
    };
    let r = ManuallyDrop::new(c.get_function(["floor", "ceil", "truncate", "round"][k]).unwrap().call(&[a]));
    match &*r {
        Ok(v) => { sym::cover(1); sym::check(v.scale() == 0 && v.mantissa() as i64 == w, 6) }
        Err(_) => sym::check(false, 2),
    }
}
/// Repeated multiplication, in any grouping: exact, or beyond the range.
fn power() {
    let c = ctx();
    let p = c.get_binary_function("^").unwrap();
    let n = sym::choice(7) as u32;
    let a = small(6, sym::choice(2) as u32);
    let m = a.mantissa() as i64;
    let r = ManuallyDrop::new(p.call(a, Decimal::from(n)));
    let mut w = 1i64;
    for _ in 0..n { w = w.wrapping_mul(m) }
    match &*r {
        Ok(v) => {
            sym::cover(1);
            // value = mantissa / 10^scale, whatever the scale chosen
            let mut e = a.scale() * n;
            let (mut x, mut y) = (v.mantissa() as i64, w);
            let mut s = v.scale();
            while e < s { y = y.wrapping_mul(10); e += 1 }
            while s < e { x = x.wrapping_mul(10); s += 1 }
            sym::check(x == y, 7);
        }
        Err(_) => sym::check(false, 2),
    }
}
fn power_big() {
    let c = ctx();
    let p = c.get_binary_function("^").unwrap();
    let one = Decimal::ONE;
    let ten = |n: i64| Decimal::from_i128_with_scale(10i128.pow(n as u32), 0);
    let k = sym::choice(12);
    let (a, b, w): (Decimal, Decimal, Result<Decimal, ErrorKind>) = match k {
        0 => (ten(1), Decimal::from(28), Ok(ten(28))),
        1 => (ten(1), Decimal::from(29), Err(ErrorKind::Overflow)),
        2 => (ten(14), Decimal::from(2), Ok(ten(28))),
        3 => (ten(15), Decimal::from(2), Err(ErrorKind::Overflow)),
        4 => (Decimal::ZERO, Decimal::from(-1), Err(ErrorKind::Overflow)),
        5 => (Decimal::from(2), Decimal::from(95), Ok(Decimal::from_i128_with_scale(1 << 95, 0))),
        6 => (Decimal::from(-2), Decimal::from(-2), Ok(Decimal::new(25, 2))),
        7 => (Decimal::from(2), Decimal::MAX, Err(ErrorKind::Overflow)),
        8 => (-one, Decimal::from(1_000_001), Ok(-one)),
        9 => (Decimal::MAX, one, Ok(Decimal::MAX)),
        10 => (Decimal::from(5), Decimal::ZERO, Ok(one)),
        _ => (ten(9), Decimal::from(3), Ok(ten(27))),
    };
    let r = ManuallyDrop::new(p.call(a, b));
    match (&*r, w) {
        (Ok(v), Ok(w)) => { sym::cover(1); sym::check(*v == w, 7) }
        (Err(e), Err(k)) => { sym::cover(2); sym::check(e.kind() == k, 3) }
        _ => sym::check(false, 2),
    }
}
fn factorial() {
    let c = ctx();
    let n = sym::choice(33) as i64 - 2;
    let r = ManuallyDrop::new(c.get_unary_function("!").unwrap().call(Decimal::from(n)));
    let mut w: Option<i128> = Some(1);
    for i in 1..=n as i128 { w = w.map(|x| x * i).filter(|x| *x < 1 << 96) }
    if n < 0 { w = None }
    match (&*r, w) {
        (Ok(v), Some(w)) => { sym::cover(1); sym::check(v.scale() == 0 && v.mantissa() == w, 8) }
        (Err(e), None) => { sym::cover(2); sym::check(e.kind() == ErrorKind::Overflow, 3) }
        _ => sym::check(false, 2),
    }
}
const ONE_ARG: [&str; 37] = ["sqrt", "cbrt", "ln", "ceil", "floor", "truncate", "round", "exp", "to_radians", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "acsc", "asec", "acot", "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth", "sum", "product", "avg", "max"];
fn arity() {
    let c = ctx();
    let k = sym::choice(ONE_ARG.len() as u64 + 3) as usize;
    let a = [Decimal::ONE, Decimal::ONE, Decimal::ONE];
    let (name, n) = match k {
        37 => ("log", [0, 3][sym::choice(2) as usize]),
        38 => ("atan", [0, 3][sym::choice(2) as usize]),
        39 => ("min", sym::choice(2) as usize),
        36 => ("max", sym::choice(2) as usize),
        k if k >= 33 => (ONE_ARG[k], 0),
        k => (ONE_ARG[k], [0, 2, 3][sym::choice(3) as usize]),
    };
    match c.get_function(name) {
        None => sym::check(false, 9),
        Some(f) => {
            let r = ManuallyDrop::new(f.call(&a[..n]));
            sym::cover(1);
            sym::check(matches!(&*r, Err(e) if e.kind() == ErrorKind::InvalidArgumentCount), 10);
        }
    }
}
crate::entry! {
    h_d_same { pair(0, 2, any(0), any(0)) }
    h_d_small { let (s, t) = (sym::choice(3) as u32, sym::choice(3) as u32 * 2); pair(0, 3, small(16, s), small(16, t)) }
    h_d_huge { let a = huge(8); let b = if sym::choice(2) == 0 { small(8, 0) } else { huge(8) }; pair(0, 3, a, b) }
    h_d_div { let k = sym::choice(8); let a = number(sym::choice(5)); pair(3, 5, a, divisor(k)) }
    h_d_div2 { pair(3, 4, small(8, 0), Decimal::new(5,1)) }
    h_d_rem { pair(4, 5, small(8, 0), small(8, 0)) }
    h_d_unary { unary() }
    h_d_sum { fold(0, 3) }
    h_d_prod { fold(1, 2) }
    h_d_prod3 { fold(4, 3) }
    h_d_avg { fold(2, 3) }
    h_d_bounds { bounds() }
    h_d_round8 { rounding(8) }
    h_d_round12 { rounding(12) }
    h_d_round16 { rounding(16) }
    h_d_power { power() }
    h_d_powbig { power_big() }
    h_d_fact { factorial() }
    h_d_arity { arity() }
}
