//! Hash-consed bit-vector terms with local simplification.
//! Width-1 terms double as booleans.
use std::collections::HashMap;

pub type Tid = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    None, Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, ZExt, SExt, Extract, Concat, UMulO, SMulO,
    // floating point, over IEEE bit patterns of width 32 or 64
    FAdd, FSub, FMul, FDiv, FSqrt, FEq, FLt, FLe,
    FRoundRne, FRoundRna, FRoundUp, FRoundDown, FRoundZero,
    FToSI, FToUI, SIToF, UIToF, FConv,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u8, pub a: Tid, pub b: Tid, pub c: Tid, pub k: u128 }

pub struct Tm {
    pub nodes: Vec<Node>,
    map: HashMap<Node, Tid, std::hash::BuildHasherDefault<Fx>>,
    vars: Vec<Option<std::rc::Rc<Vec<u32>>>>,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64) } }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}

static mut TMP: *mut Tm = std::ptr::null_mut();
pub fn tm() -> &'static mut Tm { unsafe { &mut *TMP } }
pub fn init() {
    let t = Box::new(Tm { nodes: vec![], map: Default::default(), vars: vec![] });
    unsafe { TMP = Box::into_raw(t) }
    tm().nodes.push(Node { op: None, w: 0, a: 0, b: 0, c: 0, k: 0 });
}

pub fn mask(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u32) -> i128 { if w >= 128 { v as i128 } else { ((v << (128 - w)) as i128) >> (128 - w) } }

pub fn node(t: Tid) -> Node { tm().nodes[t as usize] }
pub fn width(t: Tid) -> u32 { node(t).w as u32 }
fn mk(n: Node) -> Tid {
    let m = tm();
    if let Some(&t) = m.map.get(&n) { return t; }
    let t = m.nodes.len() as Tid;
    m.nodes.push(n);
    m.map.insert(n, t);
    t
}
fn raw(op: Op, w: u32, a: Tid, b: Tid, c: Tid, k: u128) -> Tid { mk(Node { op, w: w as u8, a, b, c, k }) }
pub fn cst(w: u32, k: u128) -> Tid { raw(Const, w, 0, 0, 0, k & mask(w)) }
pub fn var(id: u32, w: u32) -> Tid { raw(Var, w, 0, 0, 0, id as u128) }
pub fn is_const(t: Tid) -> Option<u128> { let n = node(t); if n.op == Const { Some(n.k) } else { Option::None } }
pub fn tt() -> Tid { cst(1, 1) }
pub fn ff() -> Tid { cst(1, 0) }

/// Concrete semantics, shared by constant folding and model evaluation.
pub fn fold(op: Op, w: u32, aw: u32, a: u128, b: u128, c: u128, bw: u32, k: u128) -> u128 {
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => if b == 0 { m } else { a / b },
        URem => if b == 0 { a } else { a % b },
        SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        LShr => if b >= w as u128 { 0 } else { a >> b },
        AShr => { let s = if b >= w as u128 { w - 1 } else { b as u32 }; let x = sx(a, w); ((x >> s.min(127)) as u128) & m }
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Ite => if a != 0 { b } else { c },
        ZExt => a,
        SExt => (sx(a, aw) as u128) & m,
        Extract => (a >> k) & m,
        Concat => ((a << bw) | b) & m,
        UMulO => match a.checked_mul(b) { Some(p) => (p > mask(aw)) as u128, Option::None => 1 },
        SMulO => match sx(a, aw).checked_mul(sx(b, aw)) { Some(p) => (sx((p as u128) & mask(aw), aw) != p) as u128, Option::None => 1 },
        FAdd | FSub | FMul | FDiv => if w == 64 {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            (match op { FAdd => x + y, FSub => x - y, FMul => x * y, _ => x / y }).to_bits() as u128
        } else {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            (match op { FAdd => x + y, FSub => x - y, FMul => x * y, _ => x / y }).to_bits() as u128
        },
        FSqrt => if w == 64 { f64::from_bits(a as u64).sqrt().to_bits() as u128 } else { f32::from_bits(a as u32).sqrt().to_bits() as u128 },
        FEq => (tof(a, aw) == tof(b, aw)) as u128,
        FLt => (tof(a, aw) < tof(b, aw)) as u128,
        FLe => (tof(a, aw) <= tof(b, aw)) as u128,
        FRoundRne => ff_un(a, w, |x| x.round_ties_even()),
        FRoundRna => ff_un(a, w, |x| x.round()),
        FRoundUp => ff_un(a, w, |x| x.ceil()),
        FRoundDown => ff_un(a, w, |x| x.floor()),
        FRoundZero => ff_un(a, w, |x| x.trunc()),
        FToSI => { let x = tof(a, aw); let v = x as i128; let (lo, hi) = (-(1i128 << (w.min(127) - 1).min(126)), (1i128 << (w.min(127) - 1).min(126)) - 1); if w >= 127 { v as u128 & m } else { (v.clamp(lo, hi) as u128) & m } }
        FToUI => { let x = tof(a, aw); let v = x as u128; v.min(m) }
        SIToF => { let x = sx(a, aw); if w == 64 { (x as f64).to_bits() as u128 } else { (x as f32).to_bits() as u128 } }
        UIToF => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        FConv => if w == 64 { (f32::from_bits(a as u32) as f64).to_bits() as u128 } else { (f64::from_bits(a as u64) as f32).to_bits() as u128 },
        None | Const | Var => unreachable!(),
    }
}
fn tof(a: u128, w: u32) -> f64 { if w == 64 { f64::from_bits(a as u64) } else { f32::from_bits(a as u32) as f64 } }
fn ff_un(a: u128, w: u32, f: fn(f64) -> f64) -> u128 { if w == 64 { f(f64::from_bits(a as u64)).to_bits() as u128 } else { (f(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128 } }

pub fn not(a: Tid) -> Tid {
    debug_assert!(width(a) == 1);
    let n = node(a);
    match n.op {
        Const => cst(1, 1 - n.k),
        Xor if is_const(n.b) == Some(1) => n.a,
        Ult => bin(Ule, n.b, n.a),
        Ule => bin(Ult, n.b, n.a),
        Slt => bin(Sle, n.b, n.a),
        Sle => bin(Slt, n.b, n.a),
        _ => raw(Xor, 1, a, tt(), 0, 0),
    }
}
pub fn and(a: Tid, b: Tid) -> Tid { bin(And, a, b) }
pub fn or(a: Tid, b: Tid) -> Tid { bin(Or, a, b) }
pub fn eq(a: Tid, b: Tid) -> Tid { bin(Eq, a, b) }

/// upper bound of an unsigned value (cheap)
fn umax(t: Tid) -> u128 {
    let n = node(t);
    let m = mask(n.w as u32);
    match n.op {
        Const => n.k,
        ZExt => umax(n.a),
        And => { let (x, y) = (is_const(n.a), is_const(n.b)); x.or(y).map_or(m, |k| k.min(m)) }
        Ite => { let (x, y) = (node(n.b), node(n.c)); if x.op == Const && y.op == Const { x.k.max(y.k) } else if (x.op == Const || x.op == ZExt) && (y.op == Const || y.op == ZExt) { umax(n.b).max(umax(n.c)) } else { m } }
        LShr => if let Some(s) = is_const(n.b) { if s < 128 { m >> s } else { 0 } } else { m },
        URem => if let Some(s) = is_const(n.b) { if s > 0 { s - 1 } else { m } } else { m },
        _ => m,
    }
}

fn commut(op: Op) -> bool { matches!(op, Add | Mul | And | Or | Xor | Eq | UMulO | SMulO | FAdd | FMul) }

pub fn bin(op: Op, mut a: Tid, mut b: Tid) -> Tid {
    let w = width(a);
    debug_assert_eq!(w, width(b), "{:?}", op);
    let rw = match op { Eq | Ult | Ule | Slt | Sle | UMulO | SMulO | FEq | FLt | FLe => 1, _ => w };
    let (ca, cb) = (is_const(a), is_const(b));
    if let (Some(x), Some(y)) = (ca, cb) { return cst(rw, fold(op, rw, w, x, y, 0, w, 0)); }
    if matches!(op, FEq | FLt | FLe) { return fcmp(op, a, b); }
    if commut(op) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
    let (ca, cb) = (is_const(a), is_const(b));
    let m = mask(w);
    let na = node(a);
    match op {
        Add => {
            if cb == Some(0) { return a; }
            if let Some(k) = cb { if na.op == Add { if let Some(k2) = is_const(na.b) { return bin(Add, na.a, cst(w, k.wrapping_add(k2))); } } 
              if na.op==Ite && is_const(na.b).is_some() && is_const(na.c).is_some() { return ite(na.a, bin(Add,na.b,b), bin(Add,na.c,b)); } }
            let nb = node(b);
            if na.op == Sub && na.b == b { return na.a; }
            if nb.op == Sub && nb.b == a { return nb.a; }
        }
        Sub => {
            if cb == Some(0) { return a; }
            if a == b { return cst(w, 0); }
            if let Some(k) = cb { return bin(Add, a, cst(w, 0u128.wrapping_sub(k))); }
            if na.op == Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
        }
        Mul => {
            if cb == Some(0) { return b; }
            if cb == Some(1) { return a; }
            if let Some(k) = cb { if k.is_power_of_two() { return bin(Shl, a, cst(w, k.trailing_zeros() as u128)); } }
        }
        UDiv => { if cb == Some(1) { return a; } if let Some(k) = cb { if k.is_power_of_two() { return bin(LShr, a, cst(w, k.trailing_zeros() as u128)); } if umax(a) < k { return cst(w, 0); } } }
        URem => { if let Some(k) = cb { if k.is_power_of_two() { return bin(And, a, cst(w, k - 1)); } if umax(a) < k { return a; } } }
        SDiv => { if cb == Some(1) { return a; } }
        And => {
            if cb == Some(0) { return b; }
            if cb == Some(m) { return a; }
            if a == b { return a; }
            if w == 1 && (raw_is_not(a, b)) { return ff(); }
            if let Some(k) = cb {
                if (k + 0).wrapping_add(1).is_power_of_two() && umax(a) <= k { return a; }
                if na.op == And { if let Some(k2) = is_const(na.b) { return bin(And, na.a, cst(w, k & k2)); } }
                if na.op == Ite && (is_const(na.b).is_some() && is_const(na.c).is_some()) { return ite(na.a, bin(And, na.b, b), bin(And, na.c, b)); }
                // mask of zext: push inside
                if na.op == ZExt { let iw = width(na.a); if iw > 1 { return zext(bin(And, na.a, cst(iw, k)), w); } else { return if k & 1 == 1 { a } else { cst(w, 0) }; } }
            }
            // absorption x & (x|y)
            let nb = node(b);
            if nb.op == Or && (nb.a == a || nb.b == a) { return a; }
            if na.op == Or && (na.a == b || na.b == b) { return b; }
            if nb.op == And && (nb.a == a || nb.b == a) { return b; }
            if na.op == And && (na.a == b || na.b == b) { return a; }
        }
        Or => {
            if cb == Some(0) { return a; }
            if cb == Some(m) { return b; }
            if a == b { return a; }
            if w == 1 && (raw_is_not(a, b)) { return tt(); }
            let nb = node(b);
            if nb.op == And && (nb.a == a || nb.b == a) { return a; }
            if na.op == And && (na.a == b || na.b == b) { return b; }
            // or of shl/zext: treat disjoint as concat
            if let Some(t) = or_concat(a, b).or_else(|| or_concat(b, a)) { return t; }
        }
        Xor => {
            if cb == Some(0) { return a; }
            if a == b { return cst(w, 0); }
            if w == 1 && cb == Some(1) { return not(a); }
            if let Some(k) = cb { if na.op == Xor { if let Some(k2) = is_const(na.b) { return bin(Xor, na.a, cst(w, k ^ k2)); } } }
        }
        Shl => {
            if cb == Some(0) { return a; }
            if let Some(k) = cb {
                if k >= w as u128 { return cst(w, 0); }
                let k = k as u32;
                // (x << k): concat(extract(x, w-k-1..0), 0)
                return concat(extract(a, 0, w - k), cst(k, 0));
            }
        }
        LShr => {
            if cb == Some(0) { return a; }
            if let Some(k) = cb {
                if k >= w as u128 { return cst(w, 0); }
                return zext(extract(a, k as u32, w - k as u32), w);
            }
        }
        AShr => {
            if cb == Some(0) { return a; }
            if let Some(k) = cb { let k = (k as u32).min(w - 1); return sext(extract(a, k, w - k), w); }
        }
        Eq => {
            if a == b { return tt(); }
            if w == 1 { if let Some(k) = cb { return if k == 1 { a } else { not(a) }; } }
            if let Some(k) = cb {
                match na.op {
                    ZExt => { let iw = width(na.a); return if k > mask(iw) { ff() } else { eq(na.a, cst(iw, k)) }; }
                    SExt => { let iw = width(na.a); return if (sx(k & mask(iw), iw) as u128) & m != k { ff() } else { eq(na.a, cst(iw, k)) }; }
                    Add => if let Some(k2) = is_const(na.b) { return eq(na.a, cst(w, k.wrapping_sub(k2))); },
                    Xor => if let Some(k2) = is_const(na.b) { return eq(na.a, cst(w, k ^ k2)); },
                    Sub => if let Some(k1) = is_const(na.a) { return eq(na.b, cst(w, k1.wrapping_sub(k))); },
                    Ite => {
                        let (x, y) = (is_const(na.b), is_const(na.c));
                        match (x, y) {
                            (Some(x), Some(y)) => return match (x == k, y == k) { (true, true) => tt(), (true, false) => na.a, (false, true) => not(na.a), _ => ff() },
                            (Some(x), _) => return if x == k { or(na.a, eq(na.c, b)) } else { and(not(na.a), eq(na.c, b)) },
                            (_, Some(y)) => return if y == k { or(not(na.a), eq(na.b, b)) } else { and(na.a, eq(na.b, b)) },
                            _ => {}
                        }
                    }
                    Concat => { let lw = width(na.b); return and(eq(na.a, cst(w - lw, k >> lw)), eq(na.b, cst(lw, k))); }
                    And => if let Some(k2) = is_const(na.b) { if k & !k2 != 0 { return ff(); } },
                    _ => {}
                }
                if k > umax(a) { return ff(); }
            } else {
                let nb = node(b);
                if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return eq(na.a, nb.a); }
                if na.op == SExt && nb.op == SExt && width(na.a) == width(nb.a) { return eq(na.a, nb.a); }
                if na.op == Concat && nb.op == Concat && width(na.b) == width(nb.b) { return and(eq(na.a, nb.a), eq(na.b, nb.b)); }
                if na.op == Add && na.a == b { return eq(na.b, cst(w, 0)); }
                if nb.op == Add && nb.a == a { return eq(nb.b, cst(w, 0)); }
                if na.op == Add && nb.op == Add && na.a == nb.a { return eq(na.b, nb.b); }
            }
        }
        Ult => {
            if a == b { return ff(); }
            if cb == Some(0) { return ff(); }
            if cb == Some(1) { return eq(a, cst(w, 0)); }
            if ca == Some(m) { return ff(); }
            if ca == Some(0) { return not(eq(b, cst(w, 0))); }
            if let Some(k) = cb {
                if umax(a) < k { return tt(); }
                if na.op == ZExt { let iw = width(na.a); return bin(Ult, na.a, cst(iw, k)); }
                if na.op == Ite && is_const(na.b).is_some() && is_const(na.c).is_some() { return ite(na.a, bin(Ult, na.b, b), bin(Ult, na.c, b)); }
                if na.op == Concat && is_const(na.a) == Some(0) { return bin(Ult, na.b, cst(width(na.b), k)); }
            }
            if let Some(k) = ca {
                let nb = node(b);
                if umax(b) <= k { return ff(); }
                if nb.op == ZExt { let iw = width(nb.a); return bin(Ult, cst(iw, k), nb.a); }
                if nb.op == Ite && is_const(nb.b).is_some() && is_const(nb.c).is_some() { return ite(nb.a, bin(Ult, a, nb.b), bin(Ult, a, nb.c)); }
            }
            let nb = node(b);
            if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return bin(Ult, na.a, nb.a); }
            if w == 1 { return and(not(a), b); }
        }
        Ule => return {
            if a == b { return tt(); }
            if let Some(k) = cb { if k == m { return tt(); } return bin(Ult, a, cst(w, k + 1)); }
            if let Some(k) = ca { if k == 0 { return tt(); } return bin(Ult, cst(w, k - 1), b); }
            let nb = node(b);
            if na.op == ZExt && nb.op == ZExt && width(na.a) == width(nb.a) { return bin(Ule, na.a, nb.a); }
            if w == 1 { return or(not(a), b); }
            raw(Ule, 1, a, b, 0, 0)
        },
        Slt | Sle => {
            if a == b { return if op == Sle { tt() } else { ff() }; }
            // both non-negative: unsigned compare
            let half = if w >= 128 { i128::MAX as u128 } else { (1u128 << (w - 1)) - 1 };
            let (ua, ub) = (umax(a) <= half, umax(b) <= half);
            if ua && ub { return bin(if op == Slt { Ult } else { Ule }, a, b); }
            if let Some(k) = cb { let kk = sx(k, w);
                if op == Sle { if kk == half as i128 { return tt(); } return bin(Slt, a, cst(w, (kk + 1) as u128)); }
                if na.op == SExt { let iw = width(na.a); let lo = sx(1u128 << (iw - 1), iw); let hi = -(lo + 1); if kk > hi { return tt(); } if kk <= lo { return ff(); } return bin(Slt, na.a, cst(iw, k)); } }
            if let Some(k) = ca { let kk = sx(k, w); let nb = node(b);
                if op == Sle { if k == (1u128 << (w - 1)) { return tt(); } return bin(Slt, cst(w, (kk - 1) as u128), b); }
                if nb.op == SExt { let iw = width(nb.a); let lo = sx(1u128 << (iw - 1), iw); let hi = -(lo + 1); if kk < lo { return tt(); } if kk >= hi { return ff(); } return bin(Slt, cst(iw, k), nb.a); } }
            let nb = node(b);
            if na.op == SExt && nb.op == SExt && width(na.a) == width(nb.a) { return bin(op, na.a, nb.a); }
        }
        UMulO => { if cb == Some(0) || cb == Some(1) { return ff(); } if umax(a).checked_mul(umax(b)).map_or(false, |p| p <= m) { return ff(); } }
        SMulO => { if cb == Some(0) || (cb == Some(1) && w > 1) { return ff(); } }
        _ => {}
    }
    raw(op, rw, a, b, 0, 0)
}
fn raw_is_not(a: Tid, b: Tid) -> bool {
    let (x, y) = (node(a), node(b));
    (x.op == Xor && x.a == b && is_const(x.b) == Some(1)) || (y.op == Xor && y.a == a && is_const(y.b) == Some(1)) || 
    (x.op == Ult && y.op == Ule && x.a == y.b && x.b == y.a) || (x.op == Ule && y.op == Ult && x.a == y.b && x.b == y.a) ||
    (x.op == Slt && y.op == Sle && x.a == y.b && x.b == y.a) || (x.op == Sle && y.op == Slt && x.a == y.b && x.b == y.a)
}
fn or_concat(hi: Tid, lo: Tid) -> Option<Tid> {
    // hi = concat(x, 0_k), lo = zext(y) with |y| <= k
    let (h, l) = (node(hi), node(lo));
    if h.op == Concat && is_const(h.b) == Some(0) {
        let k = width(h.b);
        if l.op == ZExt && width(l.a) <= k { return Some(concat(h.a, zext(l.a, k))); }
        if l.op == Const && l.k <= mask(k) { return Some(concat(h.a, cst(k, l.k))); }
        if l.op == Concat && width(l.b) < k && umax(l.a) <= mask(k - width(l.b)) {
            let t = extract(lo, 0, k);
            return Some(concat(h.a, t));
        }
    }
    Option::None
}
pub fn ite(c: Tid, a: Tid, b: Tid) -> Tid {
    if let Some(k) = is_const(c) { return if k == 1 { a } else { b }; }
    if a == b { return a; }
    let w = width(a);
    debug_assert_eq!(w, width(b));
    if w == 1 {
        match (is_const(a), is_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), _) => return or(c, b),
            (Some(0), _) => return and(not(c), b),
            (_, Some(0)) => return and(c, a),
            (_, Some(1)) => return or(not(c), a),
            _ => {}
        }
    }
    let n = node(c);
    if n.op == Xor && is_const(n.b) == Some(1) { return ite(n.a, b, a); }
    let nb = node(b);
    if nb.op == Ite && nb.a == c { return ite(c, a, nb.c); }
    let na = node(a);
    if na.op == Ite && na.a == c { return ite(c, na.b, b); }
    raw(Ite, w, c, a, b, 0)
}
pub fn zext(a: Tid, w: u32) -> Tid {
    let n = node(a);
    if n.w as u32 == w { return a; }
    match n.op {
        Const => cst(w, n.k),
        ZExt => zext(n.a, w),
        Ite if node(n.b).op == Const && node(n.c).op == Const => ite(n.a, cst(w, node(n.b).k), cst(w, node(n.c).k)),
        _ => raw(ZExt, w, a, 0, 0, 0),
    }
}
pub fn sext(a: Tid, w: u32) -> Tid {
    let n = node(a);
    if n.w as u32 == w { return a; }
    match n.op {
        Const => cst(w, sx(n.k, n.w as u32) as u128),
        SExt => sext(n.a, w),
        ZExt => zext(n.a, w),
        Ite if node(n.b).op == Const && node(n.c).op == Const => ite(n.a, sext(n.b, w), sext(n.c, w)),
        _ => raw(SExt, w, a, 0, 0, 0),
    }
}
pub fn extract(a: Tid, lo: u32, w: u32) -> Tid {
    let n = node(a);
    let aw = n.w as u32;
    if lo == 0 && w == aw { return a; }
    match n.op {
        Const => cst(w, n.k >> lo),
        Extract => extract(n.a, n.k as u32 + lo, w),
        ZExt => {
            let iw = width(n.a);
            if lo >= iw { cst(w, 0) } else if lo + w <= iw { extract(n.a, lo, w) } else { zext(extract(n.a, lo, iw - lo), w) }
        }
        SExt => {
            let iw = width(n.a);
            if lo + w <= iw { extract(n.a, lo, w) } else if lo < iw { sext(extract(n.a, lo, iw - lo), w) } else { raw(Extract, w, a, 0, 0, lo as u128) }
        }
        Concat => {
            let lw = width(n.b);
            if lo >= lw { extract(n.a, lo - lw, w) } else if lo + w <= lw { extract(n.b, lo, w) } else { concat(extract(n.a, 0, lo + w - lw), extract(n.b, lo, lw - lo)) }
        }
        Ite if (node(n.b).op == Const || node(n.c).op == Const) => ite(n.a, extract(n.b, lo, w), extract(n.c, lo, w)),
        And | Or | Xor => bin(n.op, extract(n.a, lo, w), extract(n.b, lo, w)),
        Add | Sub | Mul if lo == 0 => bin(n.op, extract(n.a, 0, w), extract(n.b, 0, w)),
        _ => raw(Extract, w, a, 0, 0, lo as u128),
    }
}
pub fn concat(a: Tid, b: Tid) -> Tid {
    let (na, nb) = (node(a), node(b));
    let w = na.w as u32 + nb.w as u32;
    if na.op == Const && nb.op == Const { return cst(w, (na.k << nb.w) | nb.k); }
    if na.op == Const && na.k == 0 { return zext(b, w); }
    // adjacent extracts of the same term
    let (xa, la) = if na.op == Extract { (na.a, na.k as u32) } else { (a, 0) };
    let (xb, lb) = if nb.op == Extract { (nb.a, nb.k as u32) } else { (b, 0) };
    if xa == xb && la == lb + nb.w as u32 { return extract(xa, lb, w); }
    if nb.op == Concat { // right-nested: try merging a with nb.a
        let m = concat_merge(a, nb.a);
        if let Some(t) = m { return concat(t, nb.b); }
    }
    if nb.op == ZExt || (na.op == ZExt) {
        if na.op == ZExt { let iw = width(na.a); return zext(concat(na.a, b), w).max_w(w, iw); }
    }
    raw(Concat, w, a, b, 0, 0)
}
trait MaxW { fn max_w(self, w: u32, iw: u32) -> Tid; }
impl MaxW for Tid { fn max_w(self, _w: u32, _iw: u32) -> Tid { self } }
fn concat_merge(a: Tid, b: Tid) -> Option<Tid> {
    let (na, nb) = (node(a), node(b));
    if na.op == Const && nb.op == Const { return Some(concat(a, b)); }
    if na.op == Extract && nb.op == Extract && na.a == nb.a && na.k as u32 == nb.k as u32 + nb.w as u32 { return Some(concat(a, b)); }
    Option::None
}
pub fn un(op: Op, a: Tid, w: u32) -> Tid {
    let n = node(a);
    if n.op == Const { return cst(w, fold(op, w, n.w as u32, n.k, 0, 0, 0, 0)); }
    if matches!(op, FRoundRne | FRoundRna | FRoundUp | FRoundDown | FRoundZero) { return fround(op, a); }
    raw(op, w, a, 0, 0, 0)
}

// Comparisons and rounding of IEEE values as bit-vector terms (much cheaper than the solver's own
// floating-point encoding).
fn fmt_of(w: u32) -> (u32, u128) { if w == 64 { (52, 1023) } else { (23, 127) } }
fn fcmp(op: Op, a: Tid, b: Tid) -> Tid {
    let w = width(a);
    let (mb, _) = fmt_of(w);
    let inf = mask(w - 1) & !mask(mb);
    let mag = |x| bin(And, x, cst(w, mask(w - 1)));
    let key = |x: Tid| { let s = bin(AShr, x, cst(w, w as u128 - 1)); bin(Sub, bin(Xor, mag(x), s), s) };
    let num = |x: Tid| bin(Ule, mag(x), cst(w, inf));
    let (ka, kb) = (key(a), key(b));
    let r = match op { FEq => eq(ka, kb), FLt => bin(Slt, ka, kb), _ => bin(Sle, ka, kb) };
    and(and(num(a), num(b)), r)
}
fn fround(op: Op, x: Tid) -> Tid {
    let w = width(x);
    let (mb, bias) = fmt_of(w);
    let k = |v: u128| cst(w, v);
    let e = bin(And, bin(LShr, x, k(mb as u128)), k(mask(w - 1 - mb)));
    let sgn = bin(And, x, k(1 << (w - 1)));
    let neg = extract(x, w - 1, 1);
    let one = k(bias << mb);
    let sh = bin(Sub, e, k(bias));
    let frac = bin(LShr, k(mask(mb)), sh);
    let clear = |y| bin(And, y, bin(Xor, frac, k(mask(w))));
    let half = bin(LShr, k(1 << (mb - 1)), sh);
    let away = clear(bin(Add, x, frac));
    let trunc = clear(x);
    let zero = eq(bin(And, x, k(mask(w - 1))), k(0));
    let small_one = or(sgn, one);
    let (mid, below) = match op {
        FRoundZero => (trunc, sgn),
        FRoundDown => (ite(neg, away, trunc), ite(and(neg, not(zero)), small_one, sgn)),
        FRoundUp => (ite(neg, trunc, away), ite(or(neg, zero), sgn, small_one)),
        FRoundRna => (clear(bin(Add, x, half)), ite(eq(e, k(bias - 1)), small_one, sgn)),
        _ => {
            let lsb = bin(And, bin(LShr, x, bin(Sub, k(bias + mb as u128), e)), k(1));
            (clear(bin(Add, bin(Add, x, bin(Sub, half, k(1))), lsb)), ite(and(eq(e, k(bias - 1)), not(eq(bin(And, x, k(mask(mb))), k(0)))), small_one, sgn))
        }
    };
    ite(bin(Ult, e, k(bias)), below, ite(bin(Ule, k(bias + mb as u128), e), x, mid))
}
#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn float_lowering() {
        init();
        let mut r = 0x1234_5678_9abc_def1u64;
        let mut next = || { r ^= r << 13; r ^= r >> 7; r ^= r << 17; r };
        let sp = [0.0, -0.0, 0.5, -0.5, 1.0, 1.5, 2.5, -2.5, 0.49999999999999994, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 4503599627370496.5, 4503599627370495.5, 9007199254740993.0, 5e-324, f64::MAX];
        for i in 0..200_000u64 {
            let mut pick = || { let v = next(); match i % 4 { 0 => v, 1 => ((v % 4000) as f64 / 8.0 - 250.0).to_bits(), 2 => (v & !(0x7ff << 52)) | ((1015 + v % 70) << 52), _ => f64::to_bits(sp[(v % sp.len() as u64) as usize]) } };
            let (a, b) = (pick(), pick());
            for w in [64u32, 32] {
                let cv = |x: u64| if w == 64 { x as u128 } else { (f64::from_bits(x) as f32).to_bits() as u128 };
                let (x, y) = (cv(a), cv(b));
                for op in [FEq, FLt, FLe] { assert_eq!(is_const(fcmp(op, cst(w, x), cst(w, y))), Some(fold(op, 1, w, x, y, 0, w, 0)), "{:?} {:x} {:x}", op, x, y); }
                for op in [FRoundRne, FRoundRna, FRoundUp, FRoundDown, FRoundZero] {
                    let (g, e) = (is_const(fround(op, cst(w, x))).unwrap(), fold(op, w, w, x, 0, 0, 0, 0));
                    if tof(x, w).is_nan() { assert!(tof(g, w).is_nan()) } else { assert_eq!(g, e, "{:?} {:x}", op, x) }
                }
            }
        }
    }
}

/// `t` with every operation that is expensive to decide replaced by a variable of its own.
pub fn abstracted(t: Tid, memo: &mut HashMap<Tid, Tid>) -> Tid {
    if t == 0 { return 0; }
    let n = node(t);
    if n.op == Const || n.op == Var { return t; }
    if let Some(&r) = memo.get(&t) { return r; }
    let sym = |x: Tid| x != 0 && is_const(x).is_none();
    let heavy = match n.op {
        FAdd | FSub | FMul | FDiv | FSqrt | FRoundRne | FRoundRna | FRoundUp | FRoundDown | FRoundZero | FToSI | FToUI | SIToF | UIToF | FConv => true,
        Mul | UMulO | SMulO => width(n.a) >= 32 && sym(n.a) && sym(n.b),
        UDiv | SDiv | URem | SRem => width(n.a) >= 32,
        _ => false,
    };
    let r = if heavy { var(crate::solver::new_var(n.w as u32), n.w as u32) } else {
        let (a, b, c) = (abstracted(n.a, memo), abstracted(n.b, memo), abstracted(n.c, memo));
        if (a, b, c) == (n.a, n.b, n.c) { t } else { raw(n.op, n.w as u32, a, b, c, n.k) }
    };
    memo.insert(t, r);
    r
}

pub fn vars_of(t: Tid) -> std::rc::Rc<Vec<u32>> {
    let m = tm();
    if m.vars.len() < m.nodes.len() { m.vars.resize(m.nodes.len(), Option::None); }
    if let Some(v) = &m.vars[t as usize] { return v.clone(); }
    let n = node(t);
    let r = if n.op == Var { vec![n.k as u32] } else if n.op == Const || n.op == None { vec![] } else {
        let mut v: Vec<u32> = vec![];
        for x in [n.a, n.b, n.c] { if x != 0 { v.extend(vars_of(x).iter()); } }
        v.sort_unstable(); v.dedup(); v
    };
    let r = std::rc::Rc::new(r);
    let m = tm();
    if m.vars.len() < m.nodes.len() { m.vars.resize(m.nodes.len(), Option::None); }
    m.vars[t as usize] = Some(r.clone());
    r
}

/// An assignment to the symbolic inputs (unassigned variables are 0).
#[derive(Default)]
pub struct Model { pub vals: HashMap<u32, u128>, cache: std::cell::RefCell<HashMap<Tid, u128, std::hash::BuildHasherDefault<Fx>>> }
impl Model {
    pub fn new(vals: HashMap<u32, u128>) -> Model { Model { vals, cache: Default::default() } }
    pub fn eval(&self, t: Tid) -> u128 {
        let n = node(t);
        match n.op {
            Const => return n.k,
            Var => return *self.vals.get(&(n.k as u32)).unwrap_or(&0) & mask(n.w as u32),
            _ => {}
        }
        if let Some(v) = self.cache.borrow().get(&t) { return *v; }
        let v = if n.op == Ite { if self.eval(n.a) != 0 { self.eval(n.b) } else { self.eval(n.c) } } else {
            let a = self.eval(n.a);
            let b = if n.b != 0 { self.eval(n.b) } else { 0 };
            fold(n.op, n.w as u32, width(n.a), a, b, 0, if n.b != 0 { width(n.b) } else { 0 }, n.k)
        };
        self.cache.borrow_mut().insert(t, v);
        v
    }
}

pub fn show(t: Tid, depth: u32) -> String {
    let n = node(t);
    match n.op {
        Const => format!("{}:{}", n.k, n.w),
        Var => format!("v{}:{}", n.k, n.w),
        _ => if depth == 0 { "..".into() } else {
            let mut s = format!("({:?}/{}", n.op, n.w);
            if n.op == Extract { s += &format!("@{}", n.k); }
            for x in [n.a, n.b, n.c] { if x != 0 { s.push(' '); s += &show(x, depth - 1); } }
            s.push(')'); s
        }
    }
}
