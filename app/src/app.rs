//! The interactive prompt, the command line evaluation and the server's evaluation service.
use crate::collections::carray::CircularArray;
use crate::repl::repl::ReplBuilder;
use crate::sym;
use crate::EvalType;
use crossterm::event::{Event, KeyCode};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use std::mem::ManuallyDrop;
use std::ops::ControlFlow;

/// Where the keys come from.
pub static mut KEYS: Option<fn() -> Option<Event>> = None;
#[no_mangle]
fn __prexel_next_key() -> Option<Event> { unsafe { KEYS.and_then(|f| f()) } }
fn key(k: KeyCode) -> Event { Event::Key(k.into()) }

// --- line editing and history ---
/// The prompt as it should be.
#[derive(Clone)]
struct Model { buf: Vec<u8>, hist: Vec<Vec<u8>>, cap: usize, at: usize, lines: Vec<Vec<u8>>, moved: bool }
static mut M: Option<Model> = None;
static mut LEFT: usize = 0;
static mut FIRST: &[u8] = b"";
#[allow(static_mut_refs)]
fn m() -> &'static mut Model { unsafe { M.as_mut().unwrap() } }
fn blank(l: &[u8]) -> bool { l.iter().all(|c| *c == b' ') }
fn enter() {
    let m = m();
    let l = std::mem::take(&mut m.buf);
    m.lines.push(l.clone());
    if !blank(&l) {
        if m.hist.last() != Some(&l) {
            m.hist.push(l);
            if m.hist.len() > m.cap { m.hist.remove(0); }
        }
        m.at = m.hist.len();
    } else {
        // where a blank line leaves the place in the history is not specified
        sym::assume(m.at == m.hist.len());
    }
}
fn typed(c: u8) -> Event { m().buf.push(c); key(KeyCode::Char(c as char)) }
fn any_key() -> Option<Event> {
    unsafe {
        if let Some((c, rest)) = FIRST.split_first() {
            FIRST = rest;
            return Some(if *c == b'\n' { enter(); key(KeyCode::Enter) } else { typed(*c) });
        }
        if LEFT == 0 { return None }
        LEFT -= 1;
    }
    let m = m();
    Some(match sym::choice(7) {
        0 => { let c = sym::bits(7) as u8; sym::assume(c == b' ' || c.is_ascii_lowercase()); typed(c) }
        1 => { m.buf.pop(); key(KeyCode::Backspace) }
        2 => { enter(); key(KeyCode::Enter) }
        3 => { if m.at > 0 { m.at -= 1; m.buf = m.hist[m.at].clone() } key(KeyCode::Up) }
        4 => { if m.at < m.hist.len() { m.at += 1; m.buf = if m.at < m.hist.len() { m.hist[m.at].clone() } else { vec![] } } key(KeyCode::Down) }
        5 => key([KeyCode::Left, KeyCode::Right, KeyCode::Delete, KeyCode::Tab][sym::choice(4) as usize]),
        _ => Event::Resize(3, 4),
    })
}
/// Each line handed over is the line typed, edited and recalled.
fn prompt(first: &'static [u8], cap: Option<usize>, n: usize) {
    sym::fmt(false);
    unsafe { M = Some(Model { buf: vec![], hist: vec![], cap: cap.unwrap_or(100), at: 0, lines: vec![], moved: false }); LEFT = n; FIRST = first; KEYS = Some(any_key); }
    let mut got: Vec<String> = vec![];
    let repl = ReplBuilder::new().history_size(cap).build();
    repl.run(|s, _| { got.push(s); None });
    let got = ManuallyDrop::new(got);
    let m = m();
    sym::check(got.len() == m.lines.len(), 1);
    for (g, w) in got.iter().zip(m.lines.iter()) { sym::check(g.as_bytes() == &w[..], 2); }
    sym::cover(1);
    if got.len() > 1 { sym::cover(2) }
    sym::obs(got.len() as u64);
}
/// The last `cap` items, oldest first.
fn ring(n: usize) {
    let cap = sym::choice(5) as usize;
    let mut a = ManuallyDrop::new(CircularArray::<u64>::new(cap));
    let mut w: Vec<u64> = vec![];
    for _ in 0..n {
        match sym::choice(6) {
            0 | 1 | 2 => { let v = sym::bits(64); a.push(v); w.push(v); if w.len() > cap { w.remove(0); } }
            3 => sym::check(a.pop() == w.pop(), 3),
            4 => { let i = sym::below(6) as usize; sym::check(a.remove(i) == if i < w.len() { Some(w.remove(i)) } else { None }, 3) }
            _ => { let i = sym::below(6) as usize; let v = sym::bits(64); if let Some(p) = a.get_mut(i) { *p = v } if i < w.len() { w[i] = v } }
        }
        sym::check(a.len() == w.len() && a.capacity() == cap, 4);
        sym::check(a.iter().eq(w.iter()) && a.last() == w.last(), 5);
        let i = sym::below(6) as usize;
        sym::check(a.get(i) == w.get(i), 5);
        if i < w.len() { sym::check(a[i] == w[i], 5) }
    }
    sym::cover(1);
    sym::obs(w.len() as u64);
}
crate::entry! {
    h_a_ring { ring(4) }
    h_a_ring5 { ring(5) }
    h_a_keys5 { prompt(b"", Some(sym::choice(3) as usize + 1), 5) }
    h_a_keys6 { prompt(b"", Some(sym::choice(3) as usize + 1), 6) }
    h_a_hist { prompt(b"a\nb\n \nbc\nbc\nd\n", [Some(0), Some(1), Some(2), Some(3), Some(4), None][sym::choice(6) as usize], 5) }
}
