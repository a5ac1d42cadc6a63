//! Arithmetic of the built-in contexts.
use crate::sym;
use prexel::context::{Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::num::checked::CheckedNum;

type R<N> = Result<N, Error>;
fn ctx<N: CheckedNum>() -> DefaultContext<'static, N> { DefaultContext::new_checked() }

/// What the exact value allows: `Some(v)` fits the type, `None` does not.
fn expect<N: PartialEq + Copy>(r: R<N>, want: Option<N>, fail: ErrorKind, id: u32) {
    match (r, want) {
        (Ok(v), Some(w)) => { sym::cover(1); sym::check(v == w, id) }
        (Err(e), None) => { sym::cover(2); sym::check(e.kind() == fail, id + 2) }
        _ => sym::check(false, id + 1),
    }
}
pub trait Int: CheckedNum + Copy + 'static {
    /// Symbolic value.
    fn any() -> Self;
    fn exact(op: u64, a: Self, b: Self) -> Option<Self>;
    fn wide(self) -> i64;
    fn narrow(v: i64) -> Option<Self>;
    const MIN: Self;
    fn neg1() -> Self;
}
macro_rules! small { ($($t:ty, $w:ty, $any:expr);*) => { $(
    impl Int for $t {
        fn any() -> Self { $any }
        fn wide(self) -> i64 { self as i64 }
        fn narrow(v: i64) -> Option<Self> { if v >= <$t>::MIN as i64 && v <= <$t>::MAX as i64 { Some(v as $t) } else { None } }
        /// In a wider type, so exactly.
        fn exact(op: u64, a: Self, b: Self) -> Option<Self> {
            let (a, b) = (a as $w, b as $w);
            let v = match op { 0 => a + b, 1 => a - b, 2 => a * b, 3 => a / b, _ => a % b };
            if v >= <$t>::MIN as $w && v <= <$t>::MAX as $w { Some(v as $t) } else { None }
        }
        const MIN: Self = <$t>::MIN;
        fn neg1() -> Self { -1 }
    } )* } }
small!(i8, i32, sym::bits(8) as i8);
macro_rules! large { ($($t:ty, $any:expr);*) => { $(
    impl Int for $t {
        fn any() -> Self { $any }
        fn wide(self) -> i64 { self as i64 }
        fn narrow(v: i64) -> Option<Self> { Some(v as $t) }
        fn exact(op: u64, a: Self, b: Self) -> Option<Self> {
            match op {
                0 => { let v = a.wrapping_add(b); if (a < 0) == (b < 0) && (v < 0) != (a < 0) { None } else { Some(v) } }
                1 => { let v = a.wrapping_sub(b); if (a < 0) != (b < 0) && (v < 0) != (a < 0) { None } else { Some(v) } }
                2 => { let (v, o) = a.overflowing_mul(b); if o { None } else { Some(v) } }
                3 => if a == <$t>::MIN && b == -1 { None } else { Some(a / b) },
                _ => if b == -1 { Some(0) } else { Some(a % b) },
            }
        }
        const MIN: Self = <$t>::MIN;
        fn neg1() -> Self { -1 }
    } )* } }
large!(i16, sym::bits(16) as i16; i32, sym::bits(32) as i32; i64, sym::i64v(); i128, ((sym::bits(64) as u128) << 64 | sym::bits(64) as u128) as i128);

const OPS: [&str; 5] = ["+", "-", "*", "/", "mod"];
fn bin<N: Int>() {
    let c = ctx::<N>();
    let op = sym::choice(5);
    let (a, b) = (N::any(), N::any());
    let r = c.get_binary_function(OPS[op as usize]).unwrap().call(a, b);
    if op >= 3 && b.is_zero() { sym::cover(3); sym::check(matches!(&r, Err(e) if e.kind() == ErrorKind::DivisionByZero), 4); return }
    // the remainder of the least value by -1 is 0, reporting an overflow is accepted
    if op == 4 && a == N::MIN && b == N::neg1() { if let Ok(v) = &r { sym::check(v.is_zero(), 1) } return }
    expect(r, N::exact(op, a, b), ErrorKind::Overflow, 1);
}
fn unary<N: Int>() {
    let c = ctx::<N>();
    let a = N::any();
    let neg = if a == N::MIN { None } else { N::exact(1, N::zero(), a) };
    match sym::choice(3) {
        0 => expect(c.get_unary_function("-").unwrap().call(a), neg, ErrorKind::Overflow, 1),
        1 => sym::check(matches!(c.get_unary_function("+").unwrap().call(a), Ok(v) if v == a), 1),
        _ => expect(c.get_function("abs").unwrap().call(&[a]), if a >= N::zero() { Some(a) } else { neg }, ErrorKind::Overflow, 1),
    }
}
/// a ^ b for b >= 0, exactly.
fn power(a: i64, b: i64, max: i64) -> Option<i64> {
    let mut v = 1i64;
    for _ in 0..b { v *= a; if v > max || v < -max - 1 { return None } if v == 0 { return Some(0) } }
    Some(v)
}
fn pow_i8() {
    let c = ctx::<i8>();
    let (a, b) = (sym::bits(8) as i8, sym::bits(8) as i8);
    sym::assume(b >= 0 && (b <= 20));
    expect(c.get_binary_function("^").unwrap().call(a, b), power(a as i64, b as i64, 127).map(|v| v as i8), ErrorKind::Overflow, 1);
}
/// |a| >= 2 and b > 20 overflows; 0, 1 and -1 do not.
fn pow_i8_big() {
    let c = ctx::<i8>();
    let (a, b) = (sym::bits(8) as i8, sym::bits(8) as i8);
    sym::assume(b > 20);
    let want = match a { 0 => Some(0), 1 => Some(1), -1 => Some(if b & 1 == 0 { 1 } else { -1 }), _ => None };
    expect(c.get_binary_function("^").unwrap().call(a, b), want, ErrorKind::Overflow, 1);
}
/// Any base, exponents up to 4.
fn pow_i64() {
    let c = ctx::<i64>();
    let a = sym::i64v();
    let b = sym::choice(5);
    let want = match b { 0 => Some(1), 1 => Some(a), 2 => a.checked_mul(a), 3 => a.checked_mul(a).and_then(|s| s.checked_mul(a)), _ => a.checked_mul(a).and_then(|s| s.checked_mul(s)) };
    expect(c.get_binary_function("^").unwrap().call(a, b as i64), want, ErrorKind::Overflow, 1);
}
/// Small bases, by case split.
fn pow_i64_small() {
    let c = ctx::<i64>();
    let a = sym::choice(27) as i64 - 13;
    let b = sym::choice(66);
    let mut v = Some(1i64);
    for _ in 0..b { v = v.and_then(|v| v.checked_mul(a)); }
    expect(c.get_binary_function("^").unwrap().call(a, b as i64), v, ErrorKind::Overflow, 1);
}
/// Negative exponents: the integer part of the reciprocal, by case split.
fn pow_neg() {
    let c = ctx::<i64>();
    let a = sym::choice(11) as i64 - 5;
    let b = -1 - sym::choice(5) as i64;
    let r = c.get_binary_function("^").unwrap().call(a, b);
    match a {
        0 => sym::check(r.is_err(), 2),
        1 => sym::check(matches!(r, Ok(1)), 1),
        -1 => sym::check(matches!(r, Ok(v) if v == if b & 1 == 0 { 1 } else { -1 }), 1),
        _ => sym::check(matches!(r, Ok(0)), 1),
    }
    sym::cover(1);
}
fn fact<N: Int>(max: i64) {
    let c = ctx::<N>();
    let a = N::any();
    let r = c.get_unary_function("!").unwrap().call(a);
    if a < N::zero() { sym::cover(3); sym::check(matches!(&r, Err(e) if e.kind() == ErrorKind::NegativeValue), 4); return }
    let n = a.wide();
    let mut v = 1i64;
    let mut i = 1i64;
    while i <= n { v *= i; if v > max { break } i += 1; }
    expect(r, if v > max { None } else { N::narrow(v) }, ErrorKind::Overflow, 1);
}
fn fact_i64() {
    let c = ctx::<i64>();
    let n = sym::choice(31) as i64;
    let mut v = Some(1i64);
    for i in 1..=n { v = v.and_then(|v| v.checked_mul(i)); }
    expect(c.get_unary_function("!").unwrap().call(n), v, ErrorKind::Overflow, 1);
}
fn fact_i64_big() {
    let c = ctx::<i64>();
    let n = sym::i64v();
    sym::assume(n >= 1 << 22);
    sym::cover(2);
    expect(c.get_unary_function("!").unwrap().call(n), None, ErrorKind::Overflow, 1);
}

fn args<N: Int, const K: usize>() -> Vec<N> { let n = sym::choice(K as u64 + 1); let mut v = Vec::new(); for _ in 0..n { v.push(N::any()) } v }
/// The result of folding from left to right, if all partial results fit.
fn partial<N: Int>(v: &[N], op: u64) -> Option<N> {
    let mut acc = Some(v[0]);
    for x in &v[1..] { acc = match acc { Some(a) => N::exact(op, a, *x), None => None } }
    acc
}
fn wide<N: Int>(v: &[N], f: impl Fn(i64, i64) -> i64) -> i64 {
    let mut acc = v[0].wide();
    for x in &v[1..] { acc = f(acc, x.wide()) }
    acc
}
fn agg<N: Int, const K: usize>(name: usize) {
    let c = ctx::<N>();
    let v = args::<N, K>();
    let f = c.get_function(["sum", "product", "avg", "max", "min"][name]).unwrap();
    let r = f.call(&v);
    let need = if name >= 3 { 2 } else { 1 };
    if v.len() < need { sym::cover(3); sym::check(matches!(&r, Err(e) if e.kind() == ErrorKind::InvalidArgumentCount), 5); return }
    if name >= 3 {
        match r {
            Ok(m) => {
                let (mut is, mut bound) = (false, true);
                for x in &v { is |= *x == m; bound &= if name == 3 { *x <= m } else { *x >= m }; }
                sym::cover(1);
                sym::check(is, 6);
                sym::check(bound, 7);
            }
            _ => sym::check(false, 2),
        }
        return
    }
    let fits = partial(&v, if name == 1 { 2 } else { 0 });
    match (r, fits) {
        (Ok(x), Some(w)) => { sym::cover(1); sym::check(x == if name == 2 { N::exact(3, w, N::narrow(v.len() as i64).unwrap()).unwrap() } else { w }, 1) }
        (Err(_), Some(_)) => sym::check(false, 2),
        // an intermediate result that does not fit may be reported, even if the final one would
        (Err(e), None) => { sym::cover(2); sym::check(e.kind() == ErrorKind::Overflow, 3) }
        (Ok(x), None) => sym::check(x.wide() == match name { 0 => wide(&v, |a, b| a + b), 1 => wide(&v, |a, b| a * b), _ => wide(&v, |a, b| a + b) / v.len() as i64 }, 1),
    }
}
/// Averages of about as many values as the type can count.
fn avg_many() {
    let c = ctx::<i8>();
    let n = 126 + sym::choice(5) as usize;
    let x = if sym::flag() { 0 } else { -1 };
    let mut v = vec![0i8; n];
    v[0] = x;
    match c.get_function("avg").unwrap().call(&v) {
        Ok(a) => { sym::cover(1); sym::check(a == 0, 1) }
        Err(e) => { sym::cover(2); sym::check(n > 127, 2); sym::check(e.kind() == ErrorKind::Overflow, 3) }
    }
}

crate::entry! {
    h_n_bin8 { bin::<i8>() }
    h_n_bin16 { bin::<i16>() }
    h_n_bin32 { bin::<i32>() }
    h_n_bin64 { bin::<i64>() }
    h_n_bin128 { bin::<i128>() }
    h_n_un8 { unary::<i8>() }
    h_n_un64 { unary::<i64>() }
    h_n_un128 { unary::<i128>() }
    h_n_pow8 { pow_i8() }
    h_n_pow8big { pow_i8_big() }
    h_n_pow64 { pow_i64() }
    h_n_pow64s { pow_i64_small() }
    h_n_powneg { pow_neg() }
    h_n_fact8 { fact::<i8>(127) }
    h_n_fact16 { fact::<i16>(32767) }
    h_n_fact64 { fact_i64() }
    h_n_fact64big { fact_i64_big() }
    h_n_sum8 { agg::<i8, 4>(0) }
    h_n_sum32 { agg::<i32, 4>(0) }
    h_n_prod16 { agg::<i16, 4>(1) }
    h_n_prod64 { agg::<i64, 4>(1) }
    h_n_avg8 { agg::<i8, 4>(2) }
    h_n_avg32 { agg::<i32, 3>(2) }
    h_n_max8 { agg::<i8, 4>(3) }
    h_n_max64 { agg::<i64, 4>(3) }
    h_n_min8 { agg::<i8, 4>(4) }
    h_n_min64 { agg::<i64, 4>(4) }
    h_n_avgmany { avg_many() }
}
