//! A free term algebra used as the number type: evaluating an expression over `Ast` records which
//! operation was applied to which operands, so equality of two results means equality under every
//! interpretation of the operators, functions and operands.
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Ast {
    /// post-order code, 4 bits per item, last item in the low nibble
    pub hi: u64,
    pub lo: u64,
    pub len: u32,
}
impl fmt::Debug for Ast {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("ast") }
}
impl FromStr for Ast {
    type Err = ();
    /// Decimal numerals: `12`, `1.5`, `1.` (the numeral is recorded digit by digit).
    fn from_str(s: &str) -> Result<Self, ()> { Ast::numeral(s.as_bytes()).ok_or(()) }
}
/// Numerals may be imaginary (`2i`, `i`).
pub static mut IMAG: bool = false;
impl Ast {
    pub fn numeral(b: &[u8]) -> Option<Ast> {
        if unsafe { IMAG } {
            if let Some(b'i') = b.last() {
                let b = &b[..b.len() - 1];
                return if b.is_empty() { Some(Ast::nil().push(0xE).push(0xB)) } else { Ast::real(b).map(|a| a.push(0xB)) };
            }
        }
        Ast::real(b)
    }
    fn real(b: &[u8]) -> Option<Ast> {
        let mut a = Ast::nil().push(0xE);
        let mut dot = false;
        for (i, &c) in b.iter().enumerate() {
            if c.wrapping_sub(b'0') <= 9 { a = a.push((c - b'0') as u64); }
            else if c == b'.' && !dot && i > 0 { dot = true; a = a.push(0xA); }
            else { return None; }
        }
        if b.is_empty() { None } else { Some(a) }
    }
    pub const fn nil() -> Ast { Ast { hi: 0, lo: 0, len: 0 } }
    pub const fn leaf(n: u64) -> Ast { Ast { hi: 0, lo: 0xF0 | (n & 15), len: 2 } }
    pub fn push(self, n: u64) -> Ast { Ast { hi: (self.hi << 4) | (self.lo >> 60), lo: (self.lo << 4) | (n & 15), len: self.len + 1 } }
    pub fn cat(self, r: Ast) -> Ast {
        let s = 4 * r.len;
        let (hi, lo) = if s == 0 { (self.hi, self.lo) } else if s < 64 { ((self.hi << s) | (self.lo >> (64 - s)), self.lo << s) } else if s == 64 { (self.lo, 0) } else { (self.lo << (s - 64), 0) };
        Ast { hi: hi | r.hi, lo: lo | r.lo, len: self.len + r.len }
    }
    pub fn un(self, op: u64) -> Ast { self.push(op) }
    pub fn bin(self, r: Ast, op: u64) -> Ast { self.cat(r).push(op) }
}
