//! z3 back end (C API), constraint slicing and query caching.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString, CStr};
use std::rc::Rc;

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, sort: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, sort: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, sort: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul_no_overflow(c: P, a: P, b: P, s: bool) -> P;
    fn Z3_mk_bvmul_no_underflow(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, bv: P, s: P) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, t: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_lt(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_leq(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, t: P, sz: c_uint) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, t: P, s: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_set_ast_print_mode(c: P, m: c_int);
}
static Z3_ERR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static IN_CHECK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// An error while checking leaves the query undecided (and the context is thrown away), any other is one of ours.
extern "C" fn on_err(c: P, e: c_int) {
    use std::sync::atomic::Ordering::SeqCst;
    unsafe { eprintln!("symx: z3 error {}: {}", e, CStr::from_ptr(Z3_get_error_msg(c, e)).to_string_lossy()); }
    if IN_CHECK.load(SeqCst) { Z3_ERR.store(true, SeqCst); return; }
    std::process::exit(70);
}

pub enum Res { Sat(Rc<Model>), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub cache: u64, pub time_ns: u64, pub fallback: u64, pub cross: u64, pub cross_bad: u64, pub abs_sat: u64, pub abs_miss: u64 }

pub struct Solver {
    ctx: P, s: P, fs: P,
    asts: Vec<P>,
    cache: HashMap<Vec<Tid>, Option<Option<Rc<Vec<(u32, u128)>>>>>,
    pub st: Stats,
    pub rlimit: u32,
    pub ext_secs: u32,
    pub cross_every: u64,
    pub tmp: String,
    /// uninterpreted applications: result variable -> (function, arguments)
    absm: HashMap<Tid, Tid>,
    lemmas: HashMap<u32, Vec<Tid>>,
    pub ufapp: HashMap<u32, (u32, Tid, Tid)>,
    /// Only with the expensive operations as unknowns.
    pub quick: bool,
}

fn has_fp(t: Tid, seen: &mut std::collections::HashSet<Tid>) -> bool {
    if t == 0 || !seen.insert(t) { return false; }
    let n = node(t);
    use Op::*;
    if matches!(n.op, FAdd | FSub | FMul | FDiv | FSqrt | FEq | FLt | FLe | FRoundRne | FRoundRna | FRoundUp | FRoundDown | FRoundZero | FToSI | FToUI | SIToF | UIToF | FConv) { return true; }
    has_fp(n.a, seen) || has_fp(n.b, seen) || has_fp(n.c, seen)
}

impl Solver {
    pub fn new(rlimit: u32, ext_secs: u32) -> Solver {
        let mut s = Solver { ctx: std::ptr::null_mut(), s: std::ptr::null_mut(), fs: std::ptr::null_mut(), asts: vec![], cache: HashMap::new(), st: Stats::default(), rlimit, ext_secs, cross_every: 0, tmp: String::from("/tmp"), ufapp: HashMap::new(), absm: HashMap::new(), lemmas: HashMap::new(), quick: false };
        s.reset();
        s
    }
    /// (Re)creates the z3 context; called after fork().
    pub fn reset(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            self.ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(self.ctx, Some(on_err));
            Z3_set_ast_print_mode(self.ctx, 2);
            let l = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            self.s = Z3_mk_solver_for_logic(self.ctx, sym);
            Z3_solver_inc_ref(self.ctx, self.s);
            let l = CString::new("qffp").unwrap();
            let t = Z3_mk_tactic(self.ctx, l.as_ptr());
            Z3_tactic_inc_ref(self.ctx, t);
            self.fs = Z3_mk_solver_from_tactic(self.ctx, t);
            Z3_solver_inc_ref(self.ctx, self.fs);
            let p = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(self.ctx, p, Z3_mk_string_symbol(self.ctx, k.as_ptr()), self.rlimit);
            Z3_solver_set_params(self.ctx, self.s, p);
            Z3_solver_set_params(self.ctx, self.fs, p);
        }
        self.asts.clear();
    }
    fn bvnum(&self, k: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            let a = if k <= u64::MAX as u128 { Z3_mk_unsigned_int64(self.ctx, k as u64, s) } else { let c = CString::new(k.to_string()).unwrap(); Z3_mk_numeral(self.ctx, c.as_ptr(), s) };
            Z3_inc_ref(self.ctx, a);
            a
        }
    }
    fn ast(&mut self, t: Tid) -> P {
        if self.asts.len() <= t as usize { self.asts.resize(tm().nodes.len().max(t as usize + 1), std::ptr::null_mut()); }
        if !self.asts[t as usize].is_null() { return self.asts[t as usize]; }
        let n = node(t);
        let w = n.w as u32;
        let c = self.ctx;
        use Op::*;
        let a = if n.a != 0 { self.ast(n.a) } else { std::ptr::null_mut() };
        let b = if n.b != 0 { self.ast(n.b) } else { std::ptr::null_mut() };
        let d = if n.c != 0 { self.ast(n.c) } else { std::ptr::null_mut() };
        let aw = if n.a != 0 { width(n.a) } else { 0 };
        let bool_in = aw == 1;
        let r = unsafe {
            let fsort = |w: u32| if w == 64 { Z3_mk_fpa_sort_64(c) } else { Z3_mk_fpa_sort_32(c) };
            let fp = |x: P, w: u32| Z3_mk_fpa_to_fp_bv(c, x, fsort(w));
            let rne = || Z3_mk_fpa_rne(c);
            let b2v = |x: P| Z3_mk_ite(c, x, self.bvnum(1, 1), self.bvnum(0, 1));
            let v2b = |x: P| Z3_mk_eq(c, x, self.bvnum(1, 1));
            match n.op {
                None => unreachable!(),
                Const => if w == 1 { if n.k == 1 { Z3_mk_true(c) } else { Z3_mk_false(c) } } else { self.bvnum(n.k, w) },
                Var => {
                    let s = CString::new(format!("v{}_{}", n.k, w)).unwrap();
                    let sort = if w == 1 { Z3_mk_bool_sort(c) } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), sort)
                }
                And | Or | Xor if w == 1 => { let v = [a, b]; match n.op { And => Z3_mk_and(c, 2, v.as_ptr()), Or => Z3_mk_or(c, 2, v.as_ptr()), _ => if is_const(n.b) == Some(1) { Z3_mk_not(c, a) } else { Z3_mk_xor(c, a, b) } } }
                Add | Sub if w == 1 => Z3_mk_xor(c, a, b),
                Mul if w == 1 => { let v = [a, b]; Z3_mk_and(c, 2, v.as_ptr()) }
                UDiv | SDiv | URem | SRem | Shl | LShr | AShr if w == 1 => {
                    let (x, y) = (b2v(a), b2v(b));
                    v2b(match n.op { UDiv => Z3_mk_bvudiv(c, x, y), SDiv => Z3_mk_bvsdiv(c, x, y), URem => Z3_mk_bvurem(c, x, y), SRem => Z3_mk_bvsrem(c, x, y), Shl => Z3_mk_bvshl(c, x, y), LShr => Z3_mk_bvlshr(c, x, y), _ => Z3_mk_bvashr(c, x, y) })
                }
                Add => Z3_mk_bvadd(c, a, b), Sub => Z3_mk_bvsub(c, a, b), Mul => Z3_mk_bvmul(c, a, b),
                UDiv => Z3_mk_bvudiv(c, a, b), SDiv => Z3_mk_bvsdiv(c, a, b), URem => Z3_mk_bvurem(c, a, b), SRem => Z3_mk_bvsrem(c, a, b),
                And => Z3_mk_bvand(c, a, b), Or => Z3_mk_bvor(c, a, b), Xor => Z3_mk_bvxor(c, a, b),
                Shl => Z3_mk_bvshl(c, a, b), LShr => Z3_mk_bvlshr(c, a, b), AShr => Z3_mk_bvashr(c, a, b),
                Eq => Z3_mk_eq(c, a, b),
                Ult | Ule | Slt | Sle | UMulO | SMulO => {
                    let (x, y) = if bool_in { (b2v(a), b2v(b)) } else { (a, b) };
                    match n.op {
                        Ult => Z3_mk_bvult(c, x, y), Ule => Z3_mk_bvule(c, x, y), Slt => Z3_mk_bvslt(c, x, y), Sle => Z3_mk_bvsle(c, x, y),
                        UMulO => Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, x, y, false)),
                        _ => { let v = [Z3_mk_not(c, Z3_mk_bvmul_no_overflow(c, x, y, true)), Z3_mk_not(c, Z3_mk_bvmul_no_underflow(c, x, y))]; Z3_mk_or(c, 2, v.as_ptr()) }
                    }
                }
                Ite => Z3_mk_ite(c, a, b, d),
                ZExt => if bool_in { Z3_mk_ite(c, a, self.bvnum(1, w), self.bvnum(0, w)) } else { Z3_mk_zero_ext(c, w - aw, a) },
                SExt => if bool_in { Z3_mk_ite(c, a, self.bvnum(mask(w), w), self.bvnum(0, w)) } else { Z3_mk_sign_ext(c, w - aw, a) },
                Extract => { let lo = n.k as u32; let e = Z3_mk_extract(c, lo + w - 1, lo, a); if w == 1 { v2b(e) } else { e } }
                Concat => { let x = if aw == 1 { b2v(a) } else { a }; let y = if width(n.b) == 1 { b2v(b) } else { b }; Z3_mk_concat(c, x, y) }
                FAdd => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), fp(a, w), fp(b, w))),
                FSub => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), fp(a, w), fp(b, w))),
                FMul => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), fp(a, w), fp(b, w))),
                FDiv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), fp(a, w), fp(b, w))),
                FSqrt => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rne(), fp(a, w))),
                FRoundRne => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rne(), fp(a, w))),
                FRoundRna => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fp(a, w))),
                FRoundUp => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fp(a, w))),
                FRoundDown => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fp(a, w))),
                FRoundZero => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fp(a, w))),
                FEq => Z3_mk_fpa_eq(c, fp(a, aw), fp(b, aw)),
                FLt => Z3_mk_fpa_lt(c, fp(a, aw), fp(b, aw)),
                FLe => Z3_mk_fpa_leq(c, fp(a, aw), fp(b, aw)),
                FToSI => Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(a, aw), w),
                FToUI => Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(a, aw), w),
                SIToF => { let x = if bool_in { b2v(a) } else { a }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), x, fsort(w))) }
                UIToF => { let x = if bool_in { b2v(a) } else { a }; Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), x, fsort(w))) }
                FConv => Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), fp(a, aw), fsort(w))),
            }
        };
        unsafe { Z3_inc_ref(c, r); }
        self.asts[t as usize] = r;
        r
    }

    /// Constraints of `pc` that (transitively) share variables with `cond`.
    fn slice(pc: &[Tid], cond: Tid) -> Vec<Tid> {
        let mut vs: std::collections::HashSet<u32> = vars_of(cond).iter().cloned().collect();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let v = vars_of(c);
                if v.iter().any(|x| vs.contains(x)) {
                    used[i] = true;
                    out.push(c);
                    for x in v.iter() { if vs.insert(*x) { ch = true; } }
                }
            }
            if !ch { break; }
        }
        out.sort_unstable();
        out.dedup();
        out
    }

    /// A fact about the value of an application, used in every query that mentions it.
    pub fn lemma(&mut self, v: u32, t: Tid) { self.lemmas.entry(v).or_default().push(t); }
    /// Adds: applications of one uninterpreted function to equal arguments are equal.
    fn congruence(&self, pc: &[Tid], q: &mut Vec<Tid>) {
        let mut done: std::collections::HashSet<(u32, u32)> = Default::default();
        loop {
            let mut vs: Vec<u32> = vec![];
            for &t in q.iter() { vs.extend(vars_of(t).iter()); }
            vs.retain(|v| self.ufapp.contains_key(v));
            vs.sort_unstable(); vs.dedup();
            let mut add: Vec<Tid> = vec![];
            for v in &vs { if done.insert((*v, *v)) { if let Some(l) = self.lemmas.get(v) { add.extend(l.iter().filter(|t| is_const(**t).is_none())); } } }
            for (i, x) in vs.iter().enumerate() { for y in &vs[i + 1..] {
                let (p, r) = (self.ufapp[x], self.ufapp[y]);
                if p.0 != r.0 || var_width(*x) != var_width(*y) || !done.insert((*x, *y)) { continue; }
                let mut same = eq(p.1, r.1);
                if p.2 != 0 && r.2 != 0 { same = and(same, eq(p.2, r.2)); }
                let w = var_width(*x);
                let c = not(and(same, not(eq(var(*x, w), var(*y, w)))));
                if is_const(c).is_none() { add.push(c); }
            } }
            if add.is_empty() { break; }
            for c in add { if q.contains(&c) { continue; } q.push(c); for t in Self::slice(pc, c) { if !q.contains(&t) { q.push(t); } } }
        }
    }

    /// Is `pc /\ cond` satisfiable? `base` satisfies `pc`.
    pub fn check(&mut self, pc: &[Tid], cond: Tid, base: &Model) -> Res {
        if is_const(cond) == Some(0) { return Res::Unsat; }
        if is_const(cond) == Some(1) { return Res::Sat(Rc::new(Model::new(base.vals.clone()))); }
        let mut q = Self::slice(pc, cond);
        q.push(cond);
        if !self.ufapp.is_empty() { self.congruence(pc, &mut q); }
        let key = q.clone();
        let r = match self.cache.get(&key) {
            Some(r) => { self.st.cache += 1; r.clone() }
            None => { let r = self.solve(&q); if self.quick && r.is_none() { return Res::Unknown; } if self.cache.len() > 2_000_000 { self.cache.clear(); } self.cache.insert(key, r.clone()); r }
        };
        match r {
            None => Res::Unknown,
            Some(None) => Res::Unsat,
            Some(Some(m)) => {
                let mut vals = base.vals.clone();
                for (k, v) in m.iter() { vals.insert(*k, *v); }
                Res::Sat(Rc::new(Model::new(vals)))
            }
        }
    }
    fn solve(&mut self, q: &[Tid]) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        // first with the expensive operations as unknowns: unsatisfiable stays so, and a model may do
        let qa: Vec<Tid> = q.iter().map(|&t| abstracted(t, &mut self.absm)).collect();
        if qa != q {
            match self.decide(&qa, false) {
                Some(None) => return Some(None),
                Some(Some(m)) => {
                    let model = Model::new(m.iter().cloned().collect());
                    if q.iter().all(|&t| model.eval(t) == 1) { self.st.abs_sat += 1; return Some(Some(m)); }
                    // the unknown inputs as found, or all zero
                    self.st.abs_miss += 1;
                }
                None => {}
            }
        }
        if self.quick && qa != q { return None; }
        self.decide(q, true)
    }
    fn decide(&mut self, q: &[Tid], full: bool) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        let t0 = std::time::Instant::now();
        self.st.queries += 1;
        let mut seen = Default::default();
        let fpq = q.iter().any(|t| has_fp(*t, &mut seen));
        let mut vs: Vec<u32> = vec![];
        for &t in q { vs.extend(vars_of(t).iter()); }
        vs.sort_unstable(); vs.dedup();
        let asts: Vec<P> = q.iter().map(|&t| self.ast(t)).collect();
        let s = if fpq { self.fs } else { self.s };
        let asts2 = asts.clone();
        let r;
        unsafe {
            Z3_solver_push(self.ctx, s);
            for a in asts { Z3_solver_assert(self.ctx, s, a); }
            use std::sync::atomic::Ordering::SeqCst;
            IN_CHECK.store(true, SeqCst);
            let res = Z3_solver_check(self.ctx, s);
            IN_CHECK.store(false, SeqCst);
            if Z3_ERR.swap(false, SeqCst) {
                self.reset();
                let asts: Vec<P> = q.iter().map(|&t| self.ast(t)).collect();
                let r = if full { let txt = self.text(&asts); self.external(&txt, &vs) } else { None };
                self.st.time_ns += t0.elapsed().as_nanos() as u64;
                if r.is_none() && full { self.st.unknown += 1; }
                return r;
            }
            r = match res {
                -1 => { self.st.unsat += 1; Some(None) }
                1 => {
                    self.st.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = vec![];
                    for v in &vs {
                        let w = var_width(*v);
                        let t = self.ast(var(*v, w));
                        let mut o: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, m, t, true, &mut o);
                        Z3_inc_ref(self.ctx, o);
                        let val: u128 = if w == 1 {
                            (o == Z3_mk_true(self.ctx)) as u128
                        } else { CStr::from_ptr(Z3_get_numeral_string(self.ctx, o)).to_str().unwrap().parse().unwrap() };
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Some(Some(Rc::new(out)))
                }
                _ if !full => None,
                _ => {
                    // second opinion from external solvers with a wall-clock limit
                    let txt = self.text(&asts2);
                    if let Ok(d) = std::env::var("SYMX_DUMP") { let _ = std::fs::write(format!("{}/{}-{}.smt2", d, std::process::id(), self.st.queries), &txt); }
                    self.external(&txt, &vs)
                }
            };
            if self.cross_every > 0 && self.st.queries % self.cross_every == 0 && self.st.cross < 25 {
                let txt = self.text(&asts2);
                self.cross(&txt, r.as_ref().map(|x| x.is_some()));
            }
            Z3_solver_pop(self.ctx, s, 1);
        }
        let dt = t0.elapsed();
        self.st.time_ns += dt.as_nanos() as u64;
        if r.is_none() && full { self.st.unknown += 1; }
        r
    }
    /// The query as SMT-LIB text (through a plain solver: a tactic's may print converters).
    fn text(&self, asts: &[P]) -> String {
        unsafe {
            let s = Z3_mk_simple_solver(self.ctx);
            Z3_solver_inc_ref(self.ctx, s);
            for a in asts { Z3_solver_assert(self.ctx, s, *a); }
            let t = CStr::from_ptr(Z3_solver_to_string(self.ctx, s)).to_string_lossy().into_owned();
            Z3_solver_dec_ref(self.ctx, s);
            t
        }
    }
    fn run_ext(&self, cmd: &str, args: &[&str], txt: &str, secs: u32) -> String {
        let f = format!("{}/symx-q-{}.smt2", self.tmp, std::process::id());
        if std::fs::write(&f, txt).is_err() { return String::new(); }
        let o = std::process::Command::new("timeout").arg(secs.to_string()).arg(cmd).args(args).arg(&f).output();
        let _ = std::fs::remove_file(&f);
        o.map(|o| String::from_utf8_lossy(&o.stdout).into_owned()).unwrap_or_default()
    }
    fn cross(&mut self, body: &str, exp: Option<bool>) {
        let Some(exp) = exp else { return };
        let txt = format!("(set-logic ALL)\n{}\n(check-sat)\n", body);
        let o = self.run_ext("cvc5", &[], &txt, 10);
        if o.contains("(error") { return; }
        let got = if o.starts_with("sat") { true } else if o.starts_with("unsat") { false } else { return };
        self.st.cross += 1;
        if got != exp { self.st.cross_bad += 1; eprintln!("symx: SOLVER DISAGREEMENT\n{}", txt); }
    }
    fn external(&mut self, body: &str, vs: &[u32]) -> Option<Option<Rc<Vec<(u32, u128)>>>> {
        if self.ext_secs == 0 { return None; }
        self.st.fallback += 1;
        let names: Vec<String> = vs.iter().map(|v| format!("v{}_{}", v, var_width(*v))).collect();
        let txt = format!("(set-logic ALL)\n(set-option :produce-models true)\n{}\n(check-sat)\n(get-value ({}))\n", body, names.join(" "));
        for (cmd, args) in [("cvc5", vec!["--solve-bv-as-int=sum"]), ("z3-new", vec![]), ("cvc5", vec!["--bv-solver=bitblast"])] {
            let o = self.run_ext(cmd, &args, &txt, self.ext_secs);
            if o.starts_with("unsat") { self.st.unsat += 1; return Some(None); }
            if o.starts_with("sat") && !o.contains("(error") {
                let mut out = vec![];
                for v in vs {
                    let nm = format!("(v{}_{} ", v, var_width(*v));
                    let i = o.find(&nm)? + nm.len();
                    let rest = &o[i..];
                    let val = if rest.starts_with("#b") { u128::from_str_radix(&rest[2..rest.find(')')?], 2).ok()? } else if rest.starts_with("#x") { u128::from_str_radix(&rest[2..rest.find(')')?], 16).ok()? } else if rest.starts_with("true") { 1 } else if rest.starts_with("false") { 0 } else { return None };
                    out.push((*v, val));
                }
                self.st.sat += 1;
                return Some(Some(Rc::new(out)));
            }
        }
        None
    }
}

static mut VARW: Vec<u32> = vec![];
#[allow(static_mut_refs)]
pub fn var_width(v: u32) -> u32 { unsafe { VARW[v as usize] } }
#[allow(static_mut_refs)]
pub fn new_var(w: u32) -> u32 { unsafe { VARW.push(w); (VARW.len() - 1) as u32 } }
