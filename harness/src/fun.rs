//! Elementary functions of the built-in contexts over `f64` and `i64`.
use crate::sym;
use num_traits::{FromPrimitive, ToPrimitive};
use prexel::context::{Context, DefaultContext};
use prexel::error::{Error, ErrorKind};

/// Values this close to an integer are taken for it.
fn approx(x: f64) -> f64 { let r = x.round(); if (x - r).abs() < 0.000_000_000_1 { r } else { x } }
fn finite(x: f64) -> bool { !(x.is_nan() || x.is_infinite()) }
fn sign(x: f64) -> f64 { if x > 0.0 { 1.0 } else if x < 0.0 { -1.0 } else { 0.0 } }
fn inv(x: f64) -> f64 { 1.0 / x }

#[derive(Clone, Copy, PartialEq)]
enum K { Fwd, FwdInv, Trig, TrigRec, Arc, ArcRec }
use K::*;
const TABLE_F: [(&str, K, fn(f64) -> f64); 36] = [
    ("floor", Fwd, f64::floor), ("ceil", Fwd, f64::ceil), ("truncate", Fwd, f64::trunc), ("round", Fwd, f64::round), ("sign", Fwd, sign), ("sqrt", Fwd, f64::sqrt),
    ("exp", Fwd, f64::exp), ("ln", Fwd, f64::ln), ("to_radians", Fwd, f64::to_radians), ("to_degrees", Fwd, f64::to_degrees),
    ("sinh", Fwd, f64::sinh), ("cosh", Fwd, f64::cosh), ("tanh", Fwd, f64::tanh),
    ("csch", FwdInv, f64::sinh), ("sech", FwdInv, f64::cosh), ("coth", FwdInv, f64::tanh),
    ("sin", Trig, f64::sin), ("cos", Trig, f64::cos), ("tan", Trig, f64::tan), ("csc", TrigRec, f64::sin), ("sec", TrigRec, f64::cos), ("cot", TrigRec, f64::tan),
    ("asin", Arc, f64::asin), ("acos", Arc, f64::acos), ("atan", Arc, f64::atan), ("acsc", ArcRec, f64::asin), ("asec", ArcRec, f64::acos), ("acot", ArcRec, f64::atan),
    ("asinh", Arc, f64::asinh), ("acosh", Arc, f64::acosh), ("atanh", Arc, f64::atanh), ("acsch", ArcRec, f64::asinh), ("asech", ArcRec, f64::acosh), ("acoth", ArcRec, f64::atanh),
    ("log", Arc, f64::log10), ("abs", Arc, f64::abs),
];
const EXTRA: [&str; 6] = ["sum", "product", "avg", "max", "min", "random"];
fn any() -> f64 { f64::from_bits(sym::bits(64)) }
fn fin() -> f64 { let x = any(); sym::assume(finite(x)); x }

/// `r` is one of the values allowed (an error standing for any that is not a finite number).
fn allowed<N: PartialEq + FromPrimitive>(r: Result<N, Error>, w: &[f64]) {
    match r {
        Ok(v) => {
            sym::cover(1);
            let mut ok = false;
            for &x in w { if finite(x) { if let Some(n) = N::from_f64(x) { ok |= n == v } } }
            sym::check(ok, 1);
        }
        Err(e) => {
            sym::cover(2);
            sym::check(e.kind() == ErrorKind::NAN || e.kind() == ErrorKind::Overflow, 3);
            let mut ok = false;
            for &x in w { ok |= !finite(x) || N::from_f64(x).is_none() }
            sym::check(ok, 2);
        }
    }
}
fn reference(k: K, f: fn(f64) -> f64, x: f64) -> [f64; 2] {
    match k {
        Fwd => [f(approx(x)), f(x)],
        FwdInv => [inv(f(approx(x))), inv(f(x))],
        Trig => { let y = f(x.to_radians()); [approx(y), y] }
        TrigRec => { let y = f(x.to_radians()); [inv(approx(y)), inv(y)] }
        Arc => { let y = f(x).to_degrees(); [approx(y), y] }
        ArcRec => { let y = f(inv(x)).to_degrees(); [approx(y), y] }
    }
}
fn one(lo: usize, hi: usize) {
    let c: DefaultContext<f64> = DefaultContext::new_checked();
    let (name, k, f) = TABLE_F[lo + sym::choice((hi - lo) as u64) as usize];
    let x = fin();
    let r = c.get_function(name).unwrap().call(&[x]);
    let w = if name == "abs" || name == "log" { [f(x), f(x)] } else { reference(k, f, x) };
    allowed(r, &w);
}
/// The unchecked context has the same functions.
fn one_unchecked(lo: usize, hi: usize) {
    let c: DefaultContext<f64> = DefaultContext::new_unchecked();
    let (name, k, f) = TABLE_F[lo + sym::choice((hi - lo) as u64) as usize];
    let x = fin();
    match c.get_function(name) {
        Some(g) => { let w = if name == "log" || name == "abs" { [f(x), f(x)] } else { reference(k, f, x) }; allowed(g.call(&[x]), &w) }
        None => sym::check(false, 7),
    }
}
fn one_int(lo: usize, hi: usize) {
    let c: DefaultContext<i64> = DefaultContext::new_checked();
    let (name, k, f) = TABLE_F[lo + sym::choice((hi - lo) as u64) as usize];
    let x = sym::i64v();
    let r = c.get_function(name).unwrap().call(&[x]);
    let x = x as f64;
    let w = if name == "log" { [f(x), f(x)] } else { reference(k, f, x) };
    allowed(r, &w);
}
fn two() {
    let c: DefaultContext<f64> = DefaultContext::new_checked();
    let (x, y) = (fin(), fin());
    match sym::choice(3) {
        0 => { let w = x.log(y); allowed(c.get_function("log").unwrap().call(&[x, y]), &[w, w]) }
        1 => { let w = if x == 0.0 && y == 0.0 { f64::NAN } else { x.atan2(y).to_degrees() }; allowed(c.get_function("atan").unwrap().call(&[x, y]), &[w, approx(w)]) }
        _ => { let w = x.powf(y); allowed(c.get_binary_function("^").unwrap().call(x, y), &[w, w]) }
    }
}
/// IEEE arithmetic on floats; a zero divisor is an error.
fn ops(unchecked: bool) {
    let c: DefaultContext<f64> = if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    let (x, y) = (fin(), fin());
    let op = sym::choice(7);
    if op == 5 { sym::check(matches!(c.get_unary_function("-").unwrap().call(x), Ok(v) if v == -x), 4); return }
    if op == 6 { sym::check(matches!(c.get_unary_function("+").unwrap().call(x), Ok(v) if v == x), 4); return }
    let r = c.get_binary_function(["+", "-", "*", "/", "mod"][op as usize]).unwrap().call(x, y);
    if op >= 3 && y == 0.0 { sym::cover(3); sym::check(matches!(&r, Err(e) if e.kind() == ErrorKind::DivisionByZero), 5); return }
    let w = match op { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, _ => x % y };
    sym::cover(1);
    match r {
        Ok(v) => sym::check(v.to_bits() == w.to_bits(), 4),
        Err(_) => sym::check(!finite(w), 4),
    }
}
fn ops_unchecked_int() {
    let c: DefaultContext<i64> = DefaultContext::new_unchecked();
    let (x, y) = (sym::i64v(), sym::i64v());
    let op = sym::choice(5);
    if op < 3 { sym::assume(match op { 0 => x.checked_add(y), 1 => x.checked_sub(y), _ => x.checked_mul(y) }.is_some()); }
    sym::assume(!(x == i64::MIN && y == -1));
    let r = c.get_binary_function(["+", "-", "*", "/", "mod"][op as usize]).unwrap().call(x, y);
    if op >= 3 && y == 0 { sym::cover(3); sym::check(matches!(&r, Err(e) if e.kind() == ErrorKind::DivisionByZero), 5); return }
    let w = match op { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), 2 => x.wrapping_mul(y), 3 => x.wrapping_div(y), _ => x.wrapping_rem(y) };
    sym::cover(1);
    sym::check(matches!(r, Ok(v) if v == w), 4);
}
/// The largest and the smallest of floats.
fn bounds(unchecked: bool) {
    let c: DefaultContext<f64> = if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    let n = 2 + sym::choice(3) as usize;
    let v: Vec<f64> = (0..n).map(|_| fin()).collect();
    let max = sym::choice(2) == 0;
    let r = c.get_function(if max { "max" } else { "min" }).unwrap().call(&v);
    sym::cover(1);
    match r {
        Ok(w) => {
            let (mut among, mut bound) = (false, true);
            for &x in &v { among |= x == w; bound &= if max { x <= w } else { x >= w } }
            sym::check(among && bound, 11)
        }
        Err(_) => sym::check(false, 11),
    }
}
/// Aggregates of floats are folds in order.
fn agg(unchecked: bool) {
    let c: DefaultContext<f64> = if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
    let n = 1 + sym::choice(4) as usize;
    let v: Vec<f64> = (0..n).map(|_| fin()).collect();
    let op = sym::choice(3) as usize;
    let r = c.get_function(EXTRA[op]).unwrap().call(&v);
    let mut w = v[0];
    for x in &v[1..] { w = if op == 1 { w * x } else { w + x } }
    if op == 2 { w = w / n as f64 }
    sym::cover(1);
    match r { Ok(v) => sym::check(v.to_bits() == w.to_bits() || (v.is_nan() && w.is_nan()), 4), Err(_) => sym::check(!finite(w), 4) }
}
fn arity(int: bool, unchecked: bool) {
    let n = sym::choice(5) as usize;
    let k = sym::choice((TABLE_F.len() + EXTRA.len()) as u64) as usize;
    let name = if k < TABLE_F.len() { TABLE_F[k].0 } else { EXTRA[k - TABLE_F.len()] };
    let ok = match name { "sum" | "product" | "avg" => n >= 1, "max" | "min" => n >= 2, "log" | "atan" => n == 1 || n == 2, "random" => n <= 2, _ => n == 1 };
    sym::assume(!ok);
    macro_rules! go { ($t:ty, $any:expr) => {{
        let c: DefaultContext<$t> = if unchecked { DefaultContext::new_unchecked() } else { DefaultContext::new_checked() };
        let v: Vec<$t> = (0..n).map(|_| $any).collect();
        if let Some(f) = c.get_function(name) { sym::cover(1); sym::check(matches!(f.call(&v), Err(e) if e.kind() == ErrorKind::InvalidArgumentCount), 6) }
        else { sym::check(false, 7) }
    }} }
    if int { go!(i64, sym::i64v()) } else { go!(f64, any()) }
}
/// Ranges without any value are rejected by `random`.
fn random_err() {
    let c: DefaultContext<f64> = DefaultContext::new_checked();
    let (x, y) = (any(), any());
    let f = c.get_function("random").unwrap();
    if sym::choice(2) == 0 { sym::assume(!finite(x) || x < 0.0); sym::cover(1); sym::check(f.call(&[x]).is_err(), 8) }
    else { sym::assume(!finite(x) || !finite(y) || x > y); sym::cover(1); sym::check(f.call(&[x, y]).is_err(), 8) }
}
/// A random number lies between the bounds asked for.
fn random_in(k: u64) {
    let c: DefaultContext<f64> = DefaultContext::new_checked();
    let f = c.get_function("random").unwrap();
    let (x, y) = (fin(), fin());
    let (r, lo, hi) = match k {
        0 => (f.call(&[]), 0.0, 1.0),
        1 => { sym::assume(x >= 0.0 && x.to_bits() & ((1 << 44) - 1) == 0); (f.call(&[x.abs()]), 0.0, x) }
        _ => { sym::assume(x <= y); (f.call(&[x, y]), x, y) }
    };
    sym::cover(1);
    sym::check(matches!(r, Ok(v) if v >= lo && v <= hi), 10);
}
fn constants() {
    let c: DefaultContext<f64> = DefaultContext::new_checked();
    let u: DefaultContext<f64> = DefaultContext::new_unchecked();
    for c in [&c, &u] {
        sym::check(c.get_constant("PI").copied() == Some(std::f64::consts::PI), 9);
        sym::check(c.get_constant("e").copied() == Some(std::f64::consts::E), 9);
    }
    sym::check(approx_int(), 9);
}
fn approx_int() -> bool { DefaultContext::<i64>::new_checked().get_constant("pi").map(|x| x.to_i64()) == Some(Some(3)) }

crate::entry! {
    h_f_fwd1 { one(0, 6) }
    h_f_fwd2 { one(6, 16) }
    h_f_trig { one(16, 22) }
    h_f_arc { one(22, 28) }
    h_f_arch { one(28, 36) }
    h_f_unch1 { one_unchecked(0, 16) }
    h_f_unch2 { one_unchecked(16, 36) }
    h_f_bounds { bounds(false) }
    h_f_boundsu { bounds(true) }
    h_f_int1 { one_int(0, 6) }
    h_f_int2 { one_int(6, 16) }
    h_f_int3 { one_int(16, 22) }
    h_f_int4 { one_int(22, 35) }
    h_f_two { two() }
    h_f_ops { ops(false) }
    h_f_opsu { ops(true) }
    h_f_opsui { ops_unchecked_int() }
    h_f_agg { agg(false) }
    h_f_aggu { agg(true) }
    h_f_ari { arity(false, false) }
    h_f_ariu { arity(false, true) }
    h_f_arii { arity(true, false) }
    h_f_rnd0 { random_in(0) }
    h_f_rnd1 { random_in(1) }
    h_f_rnd2 { random_in(2) }
    h_f_rnd { random_err() }
    h_f_const { constants() }
}
