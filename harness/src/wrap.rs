//! Number types wrapped with the crate's macros behave as the type they wrap.
use crate::sym;
use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use prexel::context::{Context, DefaultContext};
use prexel::error::Error;
use std::str::FromStr;

macro_rules! wrapper { ($n:ident, $t:ty) => {
    pub struct $n { v: $t }
    impl From<$t> for $n { fn from(v: $t) -> Self { $n { v } } }
    prexel::impl_checked_num_traits_with_field_and_from_str!($n => v, $t);
} }
wrapper!(W8, i8);
wrapper!(W32, i32);
wrapper!(W64, i64);
mod unchecked {
    pub struct U64(pub i64);
    impl From<i64> for U64 { fn from(v: i64) -> Self { U64(v) } }
    prexel::impl_unchecked_num_traits_with_field_and_from_str!(U64 => 0, i64);
}
use unchecked::U64;

fn same<W, N: PartialEq>(w: Result<W, Error>, n: Result<N, Error>, get: fn(W) -> N) {
    match (w, n) {
        (Ok(a), Ok(b)) => { sym::cover(1); sym::check(get(a) == b, 1) }
        (Err(e), Err(f)) => { sym::cover(2); sym::check(e.kind() == f.kind(), 2) }
        _ => sym::check(false, 3),
    }
}
macro_rules! bin { ($w:ty, $t:ty, $any:expr, $ops:expr, $new:ident) => {{
    let (cw, cn): (DefaultContext<$w>, DefaultContext<$t>) = (DefaultContext::$new(), DefaultContext::$new());
    let op = $ops[sym::choice($ops.len() as u64) as usize];
    let (x, y): ($t, $t) = ($any, $any);
    same(cw.get_binary_function(op).unwrap().call(x.into(), y.into()), cn.get_binary_function(op).unwrap().call(x, y), |w: $w| w.get());
}} }
macro_rules! fun { ($w:ty, $t:ty, $any:expr, $ops:expr, $new:ident) => {{
    let (cw, cn): (DefaultContext<$w>, DefaultContext<$t>) = (DefaultContext::$new(), DefaultContext::$new());
    let op = $ops[sym::choice($ops.len() as u64) as usize];
    let (x, y): ($t, $t) = ($any, $any);
    if op == "!" || op == "-" || op == "+" { same(cw.get_unary_function(op).unwrap().call(x.into()), cn.get_unary_function(op).unwrap().call(x), |w: $w| w.get()) }
    else if sym::choice(2) == 0 { same(cw.get_function(op).unwrap().call(&[x.into()]), cn.get_function(op).unwrap().call(&[x]), |w: $w| w.get()) }
    else { same(cw.get_function(op).unwrap().call(&[x.into(), y.into()]), cn.get_function(op).unwrap().call(&[x, y]), |w: $w| w.get()) }
}} }
macro_rules! laws { ($w:ty, $t:ty, $any:expr) => {{
    let (x, y): ($t, $t) = ($any, $any);
    let (a, b): ($w, $w) = (x.into(), y.into());
    sym::check((a == b) == (x == y), 4);
    sym::check(a.partial_cmp(&b) == x.partial_cmp(&y), 4);
    sym::check(a.clone().get() == x, 5);
    sym::check(a.is_zero() == (x == 0) && <$w>::zero().get() == 0 && <$w>::one().get() == 1, 6);
    sym::check(a.to_i64() == x.to_i64() && a.to_u64() == x.to_u64() && a.to_f64() == x.to_f64(), 7);
    let n = sym::i64v();
    sym::check(<$w>::from_i64(n).map(|w| w.get()) == <$t>::from_i64(n), 7);
    sym::check(<$w>::from_u64(n as u64).map(|w| w.get()) == <$t>::from_u64(n as u64), 7);
    sym::cover(1);
}} }
macro_rules! raw { ($w:ty, $t:ty) => {{
    let (x, y) = (sym::i64v(), sym::i64v());
    let (a, b): ($w, $w) = (x.into(), y.into());
    let op = sym::choice(6);
    sym::assume(match op { 0 => x.checked_add(y), 1 => x.checked_sub(y), 2 => x.checked_mul(y), 3 => x.checked_div(y), 4 => x.checked_rem(y), _ => x.checked_neg() }.is_some());
    let r = match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, 4 => a % b, _ => -a };
    let w = match op { 0 => x.wrapping_add(y), 1 => x.wrapping_sub(y), 2 => x.wrapping_mul(y), 3 => x.wrapping_div(y), 4 => x.wrapping_rem(y), _ => x.wrapping_neg() };
    sym::cover(1);
    sym::check(r.get() == w, 8);
}} }
trait Get<T> { fn get(&self) -> T; }
impl Get<i8> for W8 { fn get(&self) -> i8 { self.v } }
impl Get<i32> for W32 { fn get(&self) -> i32 { self.v } }
impl Get<i64> for W64 { fn get(&self) -> i64 { self.v } }
impl Get<i64> for U64 { fn get(&self) -> i64 { self.0 } }

fn parse() {
    let b: [u8; 4] = [sym::u8v(), sym::u8v(), sym::u8v(), sym::u8v()];
    for c in b { sym::assume(c == b'-' || c == b'+' || c == b'.' || (c >= b'0' && c <= b'9')); }
    let n = 1 + sym::choice(4) as usize;
    let s = unsafe { std::str::from_utf8_unchecked(&b[..n]) };
    sym::cover(1);
    match (W8::from_str(s), i8::from_str(s)) { (Ok(a), Ok(b)) => sym::check(a.get() == b, 9), (Err(_), Err(_)) => {} _ => sym::check(false, 9) }
    match (U64::from_str(s), i64::from_str(s)) { (Ok(a), Ok(b)) => sym::check(a.get() == b, 9), (Err(_), Err(_)) => {} _ => sym::check(false, 9) }
}

crate::entry! {
    h_w_bin8 { bin!(W8, i8, sym::u8v() as i8, ["+", "-", "*", "/", "mod", "^"], new_checked) }
    h_w_bin64 { bin!(W64, i64, sym::i64v(), ["+", "-", "*", "/", "mod"], new_checked) }
    h_w_un8 { fun!(W8, i8, sym::u8v() as i8, ["-", "+", "!"], new_checked) }
    h_w_fun8 { fun!(W8, i8, sym::u8v() as i8, ["abs", "sum", "product", "avg", "max", "min"], new_checked) }
    h_w_fun8e { fun!(W8, i8, sym::u8v() as i8, ["floor", "sqrt", "sin", "log", "atan", "sign"], new_checked) }
    h_w_laws8 { laws!(W8, i8, sym::u8v() as i8) }
    h_w_laws64 { laws!(W64, i64, sym::i64v()) }
    h_w_raw { if sym::choice(2) == 0 { raw!(W64, i64) } else { raw!(U64, i64) } }
    h_w_parse { parse() }
}
