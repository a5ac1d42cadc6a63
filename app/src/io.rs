//! What the application writes.
use std::fmt::{Arguments, Write};
pub static mut OUT: String = String::new();
pub static mut ERR: String = String::new();
#[allow(static_mut_refs)]
pub fn out(a: Arguments) { unsafe { let _ = OUT.write_fmt(a); } }
#[allow(static_mut_refs)]
pub fn err(a: Arguments) { unsafe { let _ = ERR.write_fmt(a); } }
