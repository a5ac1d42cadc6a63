//! Sessions: what the prompt answers to each line, and what the command line and the server answer.
use crate::io::{ERR, OUT};
use crate::sym;
use crate::EvalType;
use crossterm::event::{Event, KeyCode};
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use std::fmt::Display;
use std::mem::ManuallyDrop;
use std::str::FromStr;

/// The library, asked directly.  `$result` is a variable of another name here.
pub trait Lib {
    fn eval(&self, s: &str) -> Option<String>;
    fn set(&mut self, name: &str, value: &str) -> bool;
    /// Constants with their values, operators or functions.
    fn names(&self, kind: usize) -> Vec<(String, String)>;
    /// Evaluates and keeps the value as the last result.
    fn answer(&mut self, s: &str) -> Option<String>;
}
const RES: &str = "zq_result";
fn names<N: Display>(c: &DefaultContext<'static, N>, kind: usize) -> Vec<(String, String)> {
    match kind {
        0 => c.constants().iter().map(|(n, v)| (n.to_string(), v.to_string())).collect(),
        1 => c.binary_functions().keys().map(|n| (n.to_string(), String::new())).chain(c.unary_functions().keys().map(|n| (n.to_string(), String::new()))).collect(),
        _ => c.functions().keys().map(|n| (n.to_string(), String::new())).collect(),
    }
}
struct L<N: 'static + FromStr>(Evaluator<'static, N>);
impl<N: FromStr + Clone + Display + std::fmt::Debug + 'static> Lib for L<N> {
    fn names(&self, kind: usize) -> Vec<(String, String)> { names(self.0.context(), kind) }
    fn eval(&self, s: &str) -> Option<String> { self.0.eval(s).ok().map(|v| v.to_string()) }
    fn set(&mut self, name: &str, value: &str) -> bool { match N::from_str(value) { Ok(v) => self.0.mut_context().set_variable(name, v).is_ok(), Err(_) => false } }
    fn answer(&mut self, s: &str) -> Option<String> { let v = self.0.eval(s).ok()?; let t = v.to_string(); let _ = self.0.mut_context().set_variable(RES, v); Some(t) }
}
fn cfg() -> Config { Config::new().with_implicit_mul(true) }
pub fn lib(t: &EvalType, checked: bool) -> Box<dyn Lib> {
    match t {
        EvalType::Decimal => Box::new(L::<Decimal>(Evaluator::with_context(DefaultContext::with_config_decimal(cfg())))),
        EvalType::Float if checked => Box::new(L::<f64>(Evaluator::with_context(DefaultContext::with_config_checked(cfg())))),
        EvalType::Float => Box::new(L::<f64>(Evaluator::with_context(DefaultContext::with_config_unchecked(cfg())))),
        EvalType::Integer => Box::new(L::<i128>(Evaluator::with_context(DefaultContext::with_config_checked(cfg())))),
        EvalType::Complex => Box::new(L::<Complex<f64>>(Evaluator::with_context(DefaultContext::with_config_complex(cfg().with_complex_number(true))))),
        EvalType::Binary => Box::new(B(DefaultContext::with_config_binary(cfg()))),
    }
}
struct B(DefaultContext<'static, Binary>);
impl B {
    fn value(&self, s: &str) -> Option<Binary> {
        let mut c = DefaultContext::with_config_binary(cfg());
        for (k, v) in self.0.variables() { let _ = c.set_variable(k, v.clone()); }
        let e = ManuallyDrop::new(Evaluator::with_context_and_tokenizer(c, Tokenizer::with_splitter(binary_number_splitter())));
        e.eval(s).ok()
    }
}
impl Lib for B {
    fn names(&self, kind: usize) -> Vec<(String, String)> { names(&self.0, kind) }
    fn eval(&self, s: &str) -> Option<String> { self.value(s).map(|v| v.to_string()) }
    fn answer(&mut self, s: &str) -> Option<String> { let v = self.value(s)?; let t = v.to_string(); let _ = self.0.set_variable(RES, v); Some(t) }
    fn set(&mut self, name: &str, value: &str) -> bool { match Binary::from_str(value) { Ok(v) => self.0.set_variable(name, v).is_ok(), Err(_) => false } }
}

pub struct Session { steps: &'static [&'static [&'static str]], menu: &'static [&'static str], left: usize, cur: Vec<char>, pos: usize, lib: Box<dyn Lib>, want: Option<Want>, out: usize, err: usize, over: bool }
#[derive(Clone)]
enum Want { Value(String), Fails, Silent }
static mut S: Option<ManuallyDrop<Session>> = None;
#[allow(static_mut_refs)]
fn s() -> &'static mut Session { unsafe { S.as_mut().unwrap() } }
fn ends_assignment(l: &str) -> Option<Vec<&str>> {
    let b = l.as_bytes();
    let mut any = false;
    for i in 0..b.len() {
        if b[i] != b'=' { continue }
        let pair = (i > 0 && matches!(b[i - 1], b'=' | b'<' | b'>' | b'!')) || b.get(i + 1) == Some(&b'=');
        if !pair { any = true }
    }
    if any { Some(l.split('=').collect()) } else { None }
}
/// What the line means.
fn want(s: &mut Session, line: &str) -> Want {
    let l = line.trim();
    if l == "exit" { s.over = true; return Want::Silent }
    let own = |x: &str| x.replace("$result", RES);
    if let Some(p) = ends_assignment(l) {
        if p.len() != 2 { return Want::Fails }
        if s.lib.set(&own(p[0].trim()), p[1].trim()) { Want::Silent } else { Want::Fails }
    } else {
        match s.lib.answer(&own(l)) {
            Some(v) => Want::Value(v),
            None => Want::Fails,
        }
    }
}
/// What was answered to the last line.
#[allow(static_mut_refs)]
fn judge() {
    let s = s();
    let Some(w) = s.want.take() else { return };
    let (o, e) = unsafe { (&OUT[s.out..], &ERR[s.err..]) };
    let text = |x: &str| x.replace(">>> ", "").replace('\n', "");
    let (o, e) = (text(o), text(e));
    match w {
        Want::Value(v) => { sym::cover(1); sym::check(o == v, 1); sym::check(e.is_empty(), 2) }
        Want::Fails => { sym::cover(2); sym::check(!e.is_empty(), 3); sym::check(o.is_empty(), 4) }
        Want::Silent => { sym::cover(3); sym::check(o.is_empty() && e.is_empty(), 4) }
    }
}
#[allow(static_mut_refs)]
fn keys() -> Option<Event> {
    let s = s();
    if s.pos == 0 && s.cur.is_empty() || s.pos > s.cur.len() {
        judge();
        sym::check(!s.over, 5);
        if s.left == 0 { return None }
        s.left -= 1;
        s.cur = if s.steps.is_empty() { wild(s.menu[sym::choice(s.menu.len() as u64) as usize]) } else { let l = s.steps[s.steps.len() - 1 - s.left]; wild(l[sym::choice(l.len() as u64) as usize]) };
        s.pos = 0;
    }
    s.pos += 1;
    if s.pos <= s.cur.len() { return Some(Event::Key(KeyCode::Char(s.cur[s.pos - 1]).into())) }
    let line: String = s.cur.iter().collect();
    s.want = Some(want(s, &line));
    unsafe { s.out = OUT.len(); s.err = ERR.len(); }
    Some(Event::Key(KeyCode::Enter.into()))
}
pub fn session(ty: EvalType, menu: &'static [&'static str], n: usize) {
    sym::fmt(true);
    crate::writer::set_use_colors(sym::choice(2) == 1);
    let mut l = lib(&ty, false);
    l.set(RES, "0");
    unsafe {
        S = Some(ManuallyDrop::new(Session { steps: &[], menu, left: n, cur: vec![], pos: 0, lib: l, want: None, out: 0, err: 0, over: false }));
        crate::app::KEYS = Some(keys);
    }
    crate::repl::run_repl(crate::repl::ReplConfig { history_size: None, eval_type: ty });
    if s().over { sym::cover(4) }
    sym::obs(s().left as u64);
}
const MARKS: &[u8] = b" +-*/^!%=<>&|~x2(),.e$_#i:";
/// `#` is any digit, `@` any of the characters above.
fn wild(t: &str) -> Vec<char> {
    t.chars().map(|c| match c {
        '#' => { let d = sym::bits(4) as u8; sym::assume(d < 10); (b'0' + d) as char }
        '@' => MARKS[sym::choice(MARKS.len() as u64) as usize] as char,
        c => c,
    }).collect()
}
/// One line of each step in turn.
fn steps(ty: EvalType, steps: &'static [&'static [&'static str]]) {
    sym::fmt(true);
    crate::writer::set_use_colors(true);
    let mut l = lib(&ty, false);
    l.set(RES, "0");
    unsafe {
        S = Some(ManuallyDrop::new(Session { steps, menu: &[], left: steps.len(), cur: vec![], pos: 0, lib: l, want: None, out: 0, err: 0, over: false }));
        crate::app::KEYS = Some(keys);
    }
    crate::repl::run_repl(crate::repl::ReplConfig { history_size: Some(2), eval_type: ty });
    sym::obs(s().left as u64);
}
const INTS: [&str; 14] = ["1+2", "x=2", " y = -3 ", "2x*y", "$result+1", "x+", "x=1=2", "x=z", "1/0", "", "$result=7", "X", "exit", "a b=1"];
const BINS: [&str; 12] = ["b101", "x=b11", "1 == 1", "x<=2", "2>=x", "1 = 1", "x==3", "$result|8", "x=b2", "x = 1 == 1", "~x", "exit"];
const DECS: [&str; 12] = ["1.5+2", "x=2.25", "PI=3", "x^2", "$result*2", "1/3", "Max(x,2)", "x=1e", "1/0", "Sqrt 4", "x=-0.5", "2(3)"];
const FLTS: [&str; 10] = ["1.5+2", "x=2.25", "e=3", "x*x", "$result*2", "1/0", "Max(x,2)", "x=1e3", "0/0", "x=inf"];
const CPXS: [&str; 10] = ["1+2i", "x=2i", "x*x", "i*i", "$result*i", "x=1+i", "i=3", "2i^2", "(1+i)(1-i)", "x=z"];
const TYPES: [EvalType; 5] = [EvalType::Decimal, EvalType::Float, EvalType::Integer, EvalType::Complex, EvalType::Binary];
fn ty(i: usize) -> EvalType { TYPES[i].clone() }
const EXPRS: [&str; 24] = ["1+2", "2*3-4", "7/2", "7 mod 4", "2^10", "3!", "-(2)", "2(3)(4)", "2 PI", "1/0", "", "x", "1+", "[1+2]*{3}", "(1]", "Max(3,9,4)", "Sum(1,2,3)", "2i*3i", "b101|b10", "1<=2", "1 == 2", "99999999999999999999999999999999999999999", "1.5*4", "Nope(1)"];
/// `eval -t TYPE EXPRESSION` prints what the library computes.
fn command() {
    sym::fmt(true);
    let t = ty(sym::choice(5) as usize);
    let l = ManuallyDrop::new(lib(&t, false));
    let x = crate::EvalExpr::new(t);
    let e = EXPRS[sym::choice(24) as usize];
    let got = ManuallyDrop::new(x.eval(e));
    same(got.as_ref().ok(), l.eval(e));
}
fn same(got: Option<&String>, want: Option<String>) {
    match (got, want) {
        (Some(g), Some(w)) => { sym::cover(1); sym::check(*g == w, 1); sym::obs(g.len() as u64) }
        (None, None) => sym::cover(2),
        (Some(_), None) => sym::check(false, 6),
        (None, Some(_)) => sym::check(false, 7),
    }
}
const NAMES: [&str; 6] = ["x", "X", "PI", "rate_1", "a b", ""];
const VALUES: [&str; 7] = ["2", "-3", "0.5", "abc", "b11", "2i", ""];
const WITH: [&str; 8] = ["x+1", "2x", "X*X", "rate_1", "PI", "x+X", "1", "a"];
/// The server's evaluation service, with and without variables.
fn service(vars: bool) {
    use crate::models::{EvalExpression, NumberType, Variable};
    sym::fmt(true);
    let i = sym::choice(6) as usize;
    let (t, n) = [(EvalType::Decimal, Some(NumberType::Decimal)), (EvalType::Float, Some(NumberType::Float)), (EvalType::Integer, Some(NumberType::Integer)), (EvalType::Complex, Some(NumberType::Complex)), (EvalType::Binary, Some(NumberType::Binary)), (EvalType::Decimal, None)][i].clone();
    let mut l = ManuallyDrop::new(lib(&t, true));
    let mut ok = true;
    let (e, variables) = if vars {
        let mut m = std::collections::HashMap::new();
        for second in 0..sym::choice(2) + 1 {
            let name = if second == 1 { ["X", "rate_1"][sym::choice(2) as usize] } else { NAMES[sym::choice(6) as usize] };
            let (v, text) = if second == 1 { (Variable::String("4".to_string()), "4".to_string()) } else if sym::choice(2) == 0 {
                let v = VALUES[sym::choice(7) as usize];
                (Variable::String(v.to_string()), v.to_string())
            } else {
                let v = [2.0, -3.0, 0.5, 1e6][sym::choice(4) as usize];
                (Variable::Number(v), v.to_string())
            };
            if m.insert(name.to_string(), v).is_some() { sym::assume(false) }
            // a binary number is given in decimal
            let set = if matches!(t, EvalType::Binary) { match i128::from_str(&text) { Ok(_) => l.set(name, &text), Err(_) => false } } else { l.set(name, &text) };
            ok &= set;
        }
        (WITH[sym::choice(8) as usize], Some(m))
    } else { (EXPRS[sym::choice(24) as usize], None) };
    let got = ManuallyDrop::new(crate::services::eval_expression(EvalExpression { expression: e.to_string(), r#type: n, variables }));
    same(got.as_ref().ok(), if ok { l.eval(e) } else { None });
}
/// Every constant, operator and function of the type is listed, once each, and nothing else.
#[allow(static_mut_refs)]
fn listing() {
    use crate::list::ListKind;
    sym::fmt(true);
    crate::writer::set_use_colors(sym::choice(2) == 1);
    let t = ty(sym::choice(5) as usize);
    let kind = sym::choice(3) as usize;
    let l = ManuallyDrop::new(lib(&t, false));
    let want = ManuallyDrop::new(l.names(kind));
    crate::list::list(t, [ListKind::Constants, ListKind::Operators, ListKind::Functions][kind]);
    let out = unsafe { OUT.as_str() };
    let mut lines = 0;
    for line in out.lines() {
        lines += 1;
        let (n, rest) = line.split_once(' ').unwrap_or((line, ""));
        sym::check(want.iter().filter(|(w, v)| w == n && (kind > 0 || v == rest.trim_start())).count() >= 1, 8);
    }
    sym::check(lines == want.len(), 9);
    for (w, _) in want.iter() {
        let a = out.lines().filter(|l| l.split(' ').next() == Some(w.as_str())).count();
        sym::check(a == want.iter().filter(|(x, _)| x == w).count(), 9);
    }
    sym::cover(1);
    sym::obs(lines as u64);
}
crate::entry! {
    h_a_list { listing() }
    h_a_any { steps(EvalType::Integer, &[&["x=7", "x=4"], &["x@2", "@x", "x@", "2@x=5", "x@=5", "x=@5", "x=5@"], &["x", "$result"]]) }
    h_a_anyb { steps(EvalType::Binary, &[&["x=b10"], &["x@b1", "x@=b1", "x=@b1", "x=b@"], &["x", "$result"]]) }
    h_a_num { steps(EvalType::Integer, &[&["x=#", "x=-#"], &["x*x", "y = #"], &["$result+x", "x-y"]]) }
    h_a_int2 { session(EvalType::Integer, &INTS, 2) }
    h_a_int3 { session(EvalType::Integer, &INTS, 3) }
    h_a_bin2 { session(EvalType::Binary, &BINS, 2) }
    h_a_dec2 { session(EvalType::Decimal, &DECS, 2) }
    h_a_flt2 { session(EvalType::Float, &FLTS, 2) }
    h_a_cpx2 { session(EvalType::Complex, &CPXS, 2) }
    h_a_bin3 { session(EvalType::Binary, &BINS, 3) }
    h_a_dec3 { session(EvalType::Decimal, &DECS, 3) }
    h_a_flt3 { session(EvalType::Float, &FLTS, 3) }
    h_a_cpx3 { session(EvalType::Complex, &CPXS, 3) }
    h_a_cmd { command() }
    h_a_srv { service(false) }
    h_a_srvv { service(true) }
}
