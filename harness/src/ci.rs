//! Case-insensitive names: equality, order and hash.
use crate::sym;
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

struct Rec { n: usize, b: [u8; 64] }
impl Hasher for Rec {
    fn write(&mut self, x: &[u8]) { for &c in x { if self.n < 64 { self.b[self.n] = c; } self.n += 1; } }
    fn finish(&self) -> u64 { 0 }
}
fn rec<T: Hash>(t: &T) -> Rec { let mut r = Rec { n: 0, b: [0; 64] }; t.hash(&mut r); r }
fn same(a: &Rec, b: &Rec) -> bool { let mut s = a.n == b.n; for i in 0..64 { s &= a.b[i] == b.b[i]; } s }

/// `n` symbolic chars of at most `max`, `n` symbolic up to `N`.
fn text<const N: usize>(max: u64) -> String {
    let n = sym::below(N as u64 + 1);
    let mut s = String::new();
    for i in 0..N { if (i as u64) < n { s.push(one(max)); } }
    s
}
fn one(max: u64) -> char {
    let c = sym::bits(if max > 0xffff { 21 } else if max > 0x7f { 16 } else { 7 });
    sym::assume(c <= max && !(c >= 0xd800 && c <= 0xdfff));
    unsafe { char::from_u32_unchecked(c as u32) }
}
fn low(s: &str) -> String { let mut o = String::new(); for c in s.chars() { if c.is_ascii() { o.push(c.to_ascii_lowercase()) } else { for d in c.to_lowercase() { o.push(d) } } o.push('\0') } o }

fn pair(s: &str, t: &str, oracle: bool) {
    let (a, b) = (IgnoreCaseStr::new(s), IgnoreCaseStr::new(t));
    let (c, d) = (IgnoreCaseString::from(s), IgnoreCaseString::from(t));
    let e = a == b;
    sym::check((c == d) == e, 1);
    sym::check(eq_ignore_case(s, t) == e, 2);
    if oracle { sym::check((low(s) == low(t)) == e, 3); }
    if e { sym::cover(1); } else { sym::cover(2); }
    sym::check(!e || same(&rec(&a), &rec(&b)), 4);
    sym::check(!e || same(&rec(&c), &rec(&d)), 5);
    let o = a.cmp(&b);
    sym::check((o == Ordering::Equal) == e, 6);
    sym::check(b.cmp(&a) == o.reverse(), 7);
    sym::check(c.cmp(&d) == o, 8);
    sym::obs(o as i8 as u8 as u64);
}
fn refl(s: &str) {
    let a = IgnoreCaseStr::new(s);
    let c = IgnoreCaseString::from(s);
    sym::check(a == a && c == c && a.cmp(&a) == Ordering::Equal, 9);
    sym::check(same(&rec(&a), &rec(&c)), 10);
    sym::check(a.as_str() == s && c.as_str() == s, 11);
}
const SPECIAL: [char; 28] = ['\u{c0}', '\u{e0}', '\u{df}', '\u{1e9e}', '\u{130}', '\u{131}', '\u{307}', '\u{3a3}', '\u{3c3}', '\u{3c2}', '\u{212a}', 'k', 'K', '\u{212b}', '\u{c5}', '\u{e5}', '\u{1c4}', '\u{1c5}', '\u{1c6}', '\u{10400}', '\u{10428}', '\u{2126}', '\u{3a9}', '\u{3c9}', '\u{fb00}', '\u{17f}', 's', 'i'];
fn special() -> char { SPECIAL[sym::choice(28) as usize] }
/// One-character names over characters whose case mapping is unusual.
fn uni() {
    let c = special();
    let mut s = String::new();
    s.push(c);
    refl(&s);
    let mut t = String::new();
    if sym::choice(2) == 0 { t.push(special()); pair(&s, &t, true); }
    else {
        for d in c.to_lowercase() { t.push(d); }
        pair(&s, &t, true);
        if c.to_lowercase().count() == 1 { sym::check(IgnoreCaseStr::new(&s) == IgnoreCaseStr::new(&t), 12); }
    }
}
/// An unusual character and a symbolic ASCII one, in either order.
fn mixed() -> String {
    let c = SPECIAL[[4, 6, 7, 10, 27][sym::choice(5) as usize]];
    let d = one(0x7f);
    let mut s = String::new();
    if sym::choice(2) == 0 { s.push(c); s.push(d) } else { s.push(d); s.push(c) }
    s
}
crate::entry! {
    h_ci_ascii { let s = text::<3>(0x7f); let t = text::<3>(0x7f); refl(&s); pair(&s, &t, true); }
    h_ci_ascii2 { let s = text::<2>(0x7f); let t = text::<2>(0x7f); refl(&s); pair(&s, &t, true); }
    h_ci_ascii4 { let s = text::<5>(0x7f); let t = text::<5>(0x7f); refl(&s); pair(&s, &t, true); }
    h_ci_uni { uni() }
    h_ci_unimix { let s = mixed(); let t = mixed(); refl(&s); pair(&s, &t, true); }
    h_ci_trans {
        let s = text::<2>(0x7f); let t = text::<2>(0x7f); let u = text::<2>(0x7f);
        let (a, b, c) = (IgnoreCaseStr::new(&s), IgnoreCaseStr::new(&t), IgnoreCaseStr::new(&u));
        if a <= b && b <= c { sym::check(a <= c, 13); sym::cover(1); }
    }
}
