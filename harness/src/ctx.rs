//! Contexts: registration and lookup of names, grouping symbols, name validation.
use crate::sym;
use prexel::context::validate::{check_token_name, TokenKind};
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::error::ErrorKind;
use prexel::function::*;
use std::mem::ManuallyDrop;

/// The functions of one kind: name, up to two aliases, result.
struct Fun { name: &'static str, aliases: Vec<&'static str>, id: u64 }
impl Fun { fn al(&self) -> Option<&[&str]> { if self.aliases.is_empty() { None } else { Some(&self.aliases) } } }
impl Function<u64> for Fun {
    fn name(&self) -> &str { self.name }
    fn aliases(&self) -> Option<&[&str]> { self.al() }
    fn call(&self, _: &[u64]) -> prexel::Result<u64> { Ok(self.id) }
}
impl UnaryFunction<u64> for Fun {
    fn name(&self) -> &str { self.name }
    fn aliases(&self) -> Option<&[&str]> { self.al() }
    fn notation(&self) -> Notation { Notation::Prefix }
    fn call(&self, _: u64) -> prexel::Result<u64> { Ok(self.id) }
}
impl BinaryFunction<u64> for Fun {
    fn name(&self) -> &str { self.name }
    fn aliases(&self) -> Option<&[&str]> { self.al() }
    fn precedence(&self) -> Precedence { Precedence(0) }
    fn associativity(&self) -> Associativity { Associativity::Left }
    fn call(&self, _: u64, _: u64) -> prexel::Result<u64> { Ok(self.id) }
}

/// One symbolic visible ASCII character.
fn name1() -> &'static str {
    let c = sym::bits(7);
    sym::assume(c > 32 && c < 127);
    let mut s = String::new();
    s.push(c as u8 as char);
    Box::leak(s.into_boxed_str())
}
fn same(a: &str, b: &str) -> bool { a.as_bytes()[0].eq_ignore_ascii_case(&b.as_bytes()[0]) }
fn exact(a: &str, b: &str) -> bool { a.as_bytes()[0] == b.as_bytes()[0] }

/// Histories of `N` set_variable / add_constant calls, then a lookup.
fn values<const N: usize>() {
    let mut c = ManuallyDrop::new(DefaultContext::<u64>::new());
    let mut log: [(&str, bool, u64, bool); N] = [("", false, 0, false); N];
    for i in 0..N {
        let (n, v) = (name1(), sym::bits(8));
        let var = sym::choice(2) == 0;
        let mut clash = false;
        let mut old = None;
        for j in 0..i {
            let (m, jv, w, ok) = log[j];
            if ok && jv != var && same(m, n) { clash = true }
            if ok && jv && var && exact(m, n) { old = Some(w) }
        }
        if var {
            let r = ManuallyDrop::new(c.set_variable(n, v));
            if clash { sym::cover(2); sym::check(r.is_err(), 1) }
            else { sym::cover(1); sym::check(matches!(&*r, Ok(o) if *o == old), 2) }
        } else {
            let r = ManuallyDrop::new(c.add_constant(n, v));
            sym::check(r.is_err() == clash, if clash { 1 } else { 3 });
        }
        log[i] = (n, var, v, !clash);
    }
    let q = name1();
    let (mut wv, mut wc) = (None, None);
    for j in 0..N {
        let (m, jv, w, ok) = log[j];
        if ok && jv && exact(m, q) { wv = Some(w) }
        if ok && !jv && same(m, q) { wc = Some(w) }
    }
    if wv.is_some() { sym::cover(3) }
    if wc.is_some() { sym::cover(4) }
    sym::check(c.get_variable(q).copied() == wv, 4);
    sym::check(c.get_constant(q).copied() == wc, 5);
    sym::check(c.is_variable(q) == wv.is_some() && c.is_constant(q) == wc.is_some(), 6);
    sym::check(!c.is_function(q) && !c.is_unary_function(q) && !c.is_binary_function(q), 6);
}

fn call(c: &DefaultContext<'static, u64>, kind: u64, q: &str) -> Option<u64> {
    match kind {
        0 => c.get_function(q).map(|f| f.call(&[]).unwrap_or(99)),
        1 => c.get_unary_function(q).map(|f| f.call(0).unwrap_or(99)),
        _ => c.get_binary_function(q).map(|f| f.call(0, 0).unwrap_or(99)),
    }
}
/// Histories of `N` registrations of one kind, each with up to `A` aliases and possibly under another name.
fn funs<const N: usize, const A: u64>() {
    let mut c = ManuallyDrop::new(DefaultContext::<u64>::new());
    let kind = sym::choice(3);
    let mut log: Vec<(&str, u64)> = vec![];
    for i in 0..N {
        let id = i as u64 + 1;
        let own = name1();
        let mut al = vec![];
        if A > 0 { for _ in 0..sym::choice(A + 1) { al.push(name1()); } }
        let mut all = al.clone();
        let other = sym::choice(2) == 1;
        let name = if other { name1() } else { own };
        all.push(name);
        let taken = all.iter().any(|n| log.iter().any(|(m, _)| same(m, n)));
        let f = Fun { name: own, aliases: al, id };
        let r = ManuallyDrop::new(match (kind, other) {
            (0, false) => c.add_function(f), (0, true) => c.add_function_as(f, name),
            (1, false) => c.add_unary_function(f), (1, true) => c.add_unary_function_as(f, name),
            (_, false) => c.add_binary_function(f), (_, true) => c.add_binary_function_as(f, name),
        });
        sym::check(r.is_err() == taken, if taken { 7 } else { 3 });
        if taken { sym::cover(2) } else { sym::cover(1); for n in all { log.push((n, id)) } }
    }
    let q = name1();
    let mut want = None;
    for &(m, id) in &log { if same(m, q) { want = Some(id) } }
    if want.is_some() { sym::cover(3) }
    sym::check(call(&c, kind, q) == want, 8);
    for k in 0..3 { if k != kind { sym::check(call(&c, k, q).is_none(), 9) } }
    sym::check(!c.is_variable(q) && !c.is_constant(q), 9);
    sym::check(c.is_function(q) == (kind == 0 && want.is_some()) && c.is_unary_function(q) == (kind == 1 && want.is_some()) && c.is_binary_function(q) == (kind == 2 && want.is_some()), 6);
}

const FEW: [&str; 6] = ["ab", "AB", "aB", "x", "X", "Log"];
/// Histories over six names (the map may be one whose hash is out of reach for symbolic names).
fn few<const N: usize>() {
    let mut c = ManuallyDrop::new(DefaultContext::<u64>::new());
    let mut log: Vec<(&str, u64, u64)> = vec![];
    for i in 0..N {
        let (n, kind, id) = (FEW[sym::choice(6) as usize], sym::choice(3), i as u64 + 1);
        let clash = |k: u64| log.iter().any(|(m, j, _)| *j == k && m.eq_ignore_ascii_case(n));
        let f = Fun { name: n, aliases: vec![], id };
        let (ok, want) = match kind {
            0 => (ManuallyDrop::new(c.set_variable(n, id)).is_ok(), !clash(1)),
            1 => (ManuallyDrop::new(c.add_constant(n, id)).is_ok(), !clash(0)),
            _ => (ManuallyDrop::new(c.add_function(f)).is_ok(), !clash(2)),
        };
        sym::check(ok == want, if want { 3 } else { 1 });
        if ok { sym::cover(1); log.push((n, kind, id)) } else { sym::cover(2) }
    }
    let q = FEW[sym::choice(6) as usize];
    let find = |k: u64| log.iter().rev().find(|(m, j, _)| *j == k && if k == 0 { *m == q } else { m.eq_ignore_ascii_case(q) }).map(|e| e.2);
    sym::check(c.get_variable(q).copied() == find(0), 4);
    sym::check(c.get_constant(q).copied() == find(1), 5);
    sym::check(call(&c, 0, q) == find(2), 8);
}

fn any_char() -> char {
    let c = sym::bits(21);
    sym::assume(c <= 0x10ffff && !(c >= 0xd800 && c <= 0xdfff));
    unsafe { char::from_u32_unchecked(c as u32) }
}
fn pair(c: char) -> Option<(char, char)> {
    match c { '(' | ')' => Some(('(', ')')), '[' | ']' => Some(('[', ']')), '{' | '}' => Some(('{', '}')), _ => None }
}
fn groups() {
    let g = ManuallyDrop::new(Config::new().with_grouping(Grouping::Bracket).with_grouping(Grouping::Brace));
    let c = any_char();
    let p = pair(c);
    if p.is_some() { sym::cover(1) } else { sym::cover(2) }
    let (o, k) = (p.map_or(false, |p| p.0 == c), p.map_or(false, |p| p.1 == c));
    sym::check(g.get_group_symbol(c) == p, 1);
    sym::check(g.get_group_open_for(c) == if k { Some(p.unwrap().0) } else { None }, 2);
    sym::check(g.get_group_close_for(c) == if o { Some(p.unwrap().1) } else { None }, 3);
    sym::check(g.is_group_open(c) == o, 4);
    sym::check(g.is_group_close(c) == k, 5);
    for x in [Grouping::Parenthesis, Grouping::Bracket, Grouping::Brace] {
        let (a, b) = x.symbols();
        sym::check(x.open() == a && x.close() == b && x.is_open(c) == (a == c) && x.is_close(c) == (b == c), 6);
        sym::check(x.close_for(c) == if a == c { Some(b) } else { None } && x.open_for(c) == if b == c { Some(a) } else { None }, 7);
    }
}

fn space(c: char) -> bool { matches!(c, '\t'..='\r' | ' ' | '\u{85}' | '\u{a0}' | '\u{1680}' | '\u{2000}'..='\u{200a}' | '\u{2028}' | '\u{2029}' | '\u{202f}' | '\u{205f}' | '\u{3000}') }
fn control(c: char) -> bool { matches!(c, '\0'..='\u{1f}' | '\u{7f}'..='\u{9f}') }
fn names<const N: usize>(ascii: bool) {
    let n = sym::choice(N as u64 + 1) as usize;
    let mut s = String::new();
    let (mut all, mut sp, mut ct) = (true, false, false);
    for _ in 0..n {
        let c = if ascii { sym::bits(7) as u8 as char } else { any_char() };
        s.push(c);
        all &= space(c); sp |= space(c); ct |= control(c);
    }
    let kind = [TokenKind::Variable, TokenKind::Constant, TokenKind::Operator, TokenKind::Function][sym::choice(4) as usize];
    let r = ManuallyDrop::new(check_token_name(kind, &s));
    let got = r.as_ref().err().map(|e| e.kind());
    let want = if all { Some(ErrorKind::Empty) } else if sp || ct { Some(ErrorKind::InvalidInput) } else { None };
    if want.is_some() { sym::cover(2) } else { sym::cover(1) }
    sym::check(got == want, 1);
}
crate::entry! {
    h_c_few2 { few::<2>() }
    h_c_few3 { few::<3>() }
    h_c_val2 { values::<2>() }
    h_c_val3 { values::<3>() }
    h_c_val4 { values::<4>() }
    h_c_val5 { values::<5>() }
    h_c_name5 { names::<5>(true) }
    h_c_fun2 { funs::<2, 1>() }
    h_c_fun3 { funs::<3, 0>() }
    h_c_fun2a { funs::<2, 2>() }
    h_c_fun3a { funs::<3, 1>() }
    h_c_groups { groups() }
    h_c_name1 { names::<1>(false) }
    h_c_name2 { names::<2>(false) }
    h_c_name3 { names::<3>(true) }
}
