//! Path-forking symbolic interpreter over the parsed module.
use crate::ll::*;
use crate::solver::*;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Option<Vec<(Tid, u8)>>, pub ro: bool }
type Chunk = [Option<Rc<Obj>>; 32];
const NONE: Option<Rc<Obj>> = None;

#[derive(Clone)]
pub struct Mem { chunks: Vec<Rc<Chunk>>, next: u64 }
impl Mem {
    fn get(&self, id: u64) -> Option<&Rc<Obj>> { self.chunks.get((id / 32) as usize)?[(id % 32) as usize].as_ref() }
    fn set(&mut self, id: u64, o: Option<Rc<Obj>>) {
        let c = (id / 32) as usize;
        while self.chunks.len() <= c { self.chunks.push(Rc::new([NONE; 32])); }
        Rc::make_mut(&mut self.chunks[c])[(id % 32) as usize] = o;
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        let c = (id / 32) as usize;
        let ch = self.chunks.get_mut(c)?;
        let o = Rc::make_mut(ch)[(id % 32) as usize].as_mut()?;
        Some(Rc::make_mut(o))
    }
    pub fn alloc(&mut self, size: u64) -> u64 {
        let id = self.next; self.next += 1;
        self.set(id, Some(Rc::new(Obj { data: vec![0; size as usize], sym: None, ro: false })));
        id
    }
}

#[derive(Clone)]
pub struct Frame { f: u32, b: u32, ip: u32, regs: Vec<Val>, allocas: Vec<u64>, dst: Option<u32>, inv: Option<u32> }

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Mem,
    pc: Vec<Tid>,
    fixed: HashMap<u32, u128>,
    model: Rc<Model>,
    inputs: Vec<u32>,
    obs: Vec<Val>,
    steps: u64,
    panic_ok: bool,
    fmt_on: bool,
    forks: u32,
    /// No model of `pc` is at hand: a branch was taken that the solver did not decide.
    unsure: bool,
}

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub id: u64, pub loc: String, pub inputs: Vec<u128>, pub stack: Vec<String> }
#[derive(Clone, Debug)]
pub struct Sample { pub inputs: Vec<u128>, pub obs: Vec<u128>, pub end: String }

enum End { Done, Killed, Panic(String), Viol(String, u64, String), Err(String) }
enum Stop { End(End), Refork }
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi { RandomKeys, None, SymBits, SymChoice, Assume, Assert, Cover, Obs, PanicOk, Fmt, Concretize, Finding, Unreach,
    Alloc, AllocZ, Dealloc, Realloc, NoShim, Malloc, Calloc, Free, CRealloc, PosixMemalign,
    Memcpy, Memset, Bcmp, Strlen, Panic, Abort, FmtWrite, Getrandom, Syscall, Zero, Nop, Math1, Math2, Intr, Unknown }

#[derive(Clone)]
pub struct Opts { pub max_steps: u64, pub deadline: std::time::Instant, pub jobs: usize, pub sample_every: u64, pub max_samples: usize, pub seed: u64, pub max_paths: u64, pub lazy: bool }

#[derive(Default, Clone)]
pub struct Totals { pub paths: u64, pub killed: u64, pub panics_ok: u64, pub instrs: u64, pub forks: u64, pub asserts: u64, pub asserts_const: u64, pub max_steps: u64, pub incomplete: u64, pub concret: u64, pub max_forks: u64, pub unsure: u64 }

pub struct Engine {
    pub m: Module,
    bi: Vec<Bi>,
    pub solver: Solver,
    pub o: Opts,
    pub t: Totals,
    pub viols: BTreeMap<(String, u64, String), Violation>,
    pub errors: BTreeMap<String, u64>,
    pub covers: BTreeMap<u64, u64>,
    pub findings: BTreeMap<u64, Violation>,
    pub samples: Vec<Sample>,
    pub funcs: HashSet<u32>,
    vmap: HashMap<(u32, u32), u32>,
    nf: u64,
    queue: VecDeque<State>,
    ufs: HashMap<(u32, Tid, Tid), Tid>,
    axioms: HashSet<u32>,
}

fn mathname(n: &str) -> Option<(&'static str, u32)> {
    let n = n.strip_prefix("llvm.").unwrap_or(n);
    let n = n.strip_suffix(".f64").unwrap_or(n);
    Some(match n {
        "sin" => ("sin", 1), "cos" => ("cos", 1), "tan" => ("tan", 1), "asin" => ("asin", 1), "acos" => ("acos", 1), "atan" => ("atan", 1),
        "sinh" => ("sinh", 1), "cosh" => ("cosh", 1), "tanh" => ("tanh", 1), "asinh" => ("asinh", 1), "acosh" => ("acosh", 1), "atanh" => ("atanh", 1),
        "exp" => ("exp", 1), "exp2" => ("exp2", 1), "expm1" => ("expm1", 1), "log" => ("log", 1), "log10" => ("log10", 1), "log2" => ("log2", 1), "log1p" => ("log1p", 1), "cbrt" => ("cbrt", 1),
        "pow" => ("pow", 2), "atan2" => ("atan2", 2), "hypot" => ("hypot", 2), "fmod" => ("fmod", 2),
        _ => return None,
    })
}
fn math1(n: &str, x: f64) -> f64 { match n { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "asin" => x.asin(), "acos" => x.acos(), "atan" => x.atan(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), "atanh" => x.atanh(), "exp" => x.exp(), "exp2" => x.exp2(), "expm1" => x.exp_m1(), "log" => x.ln(), "log10" => x.log10(), "log2" => x.log2(), "log1p" => x.ln_1p(), "cbrt" => x.cbrt(), _ => unreachable!() } }
fn math2(n: &str, x: f64, y: f64) -> f64 { match n { "pow" => x.powf(y), "atan2" => x.atan2(y), "hypot" => x.hypot(y), "fmod" => x % y, _ => unreachable!() } }

fn classify(n: &str, defined: bool) -> Bi {
    match n {
        "__sym_bits" => return Bi::SymBits, "__sym_choice" => return Bi::SymChoice, "__sym_assume" => return Bi::Assume, "__sym_assert" => return Bi::Assert,
        "__sym_cover" => return Bi::Cover, "__sym_obs" => return Bi::Obs, "__sym_panic_ok" => return Bi::PanicOk, "__sym_fmt" => return Bi::Fmt,
        "__sym_concretize" => return Bi::Concretize, "__sym_finding" => return Bi::Finding, "__sym_unreachable" => return Bi::Unreach,
        "malloc" => return Bi::Malloc, "calloc" => return Bi::Calloc, "free" => return Bi::Free, "realloc" => return Bi::CRealloc, "posix_memalign" => return Bi::PosixMemalign,
        "bcmp" | "memcmp" => return Bi::Bcmp, "strlen" => return Bi::Strlen, "abort" => return Bi::Abort, "getrandom" => return Bi::Getrandom, "syscall" => return Bi::Syscall,
        "memcpy" | "memmove" => return Bi::Memcpy, "memset" => return Bi::Memset,
        _ => {}
    }
    if n.contains("7___rustc") {
        if n.ends_with("12___rust_alloc") { return Bi::Alloc; }
        if n.ends_with("19___rust_alloc_zeroed") { return Bi::AllocZ; }
        if n.ends_with("14___rust_dealloc") { return Bi::Dealloc; }
        if n.ends_with("14___rust_realloc") { return Bi::Realloc; }
        if n.contains("no_alloc_shim") { return Bi::NoShim; }
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking11begin_panic") || n.contains("rust_begin_unwind") || n.contains("5alloc5alloc18handle_alloc_error") || n.contains("10rust_panic") { if !n.contains("assert_failedN") { return Bi::Panic; } }
    if n.ends_with("4core3fmt5write") { return Bi::FmtWrite; }
    if n.contains("random") && n.ends_with("hashmap_random_keys") { return Bi::RandomKeys; }
    if let Some((_, k)) = mathname(n) { if !defined { return if k == 1 { Bi::Math1 } else { Bi::Math2 }; } }
    if n.starts_with("llvm.") {
        if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.x86.avx.vzeroupper") || n.starts_with("llvm.x86.sse2.pause") || n.starts_with("llvm.prefetch") || n.starts_with("llvm.invariant") { return Bi::Nop; }
        if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") { return Bi::Memcpy; }
        if n.starts_with("llvm.memset") { return Bi::Memset; }
        if n.starts_with("llvm.trap") { return Bi::Abort; }
        return Bi::Intr;
    }
    if !defined {
        if n.starts_with("pthread_") || n == "__cxa_thread_atexit_impl" || n == "__errno_location" || n == "gettid" || n == "getenv" { return Bi::Zero; }
        return Bi::Unknown;
    }
    Bi::None
}

fn c(v: &Val) -> Option<u128> { match v { Val::C(k) => Some(*k), Val::S(t) => is_const(*t), _ => None } }
fn tid(v: &Val, w: u32) -> Tid { match v { Val::C(k) => cst(w, *k), Val::S(t) => *t, Val::A(_) => panic!("aggregate as scalar") } }
fn vt(t: Tid) -> Val { match is_const(t) { Some(k) => Val::C(k), None => Val::S(t) } }
fn err<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Err(s.into()))) }

impl Engine {
    pub fn new(m: Module, o: Opts, solver: Solver) -> Engine {
        let bi = m.funcs.iter().map(|f| classify(&f.name, f.defined)).collect();
        let nf = m.funcs.len() as u64;
        Engine { m, bi, solver, o, t: Default::default(), viols: Default::default(), errors: Default::default(), covers: Default::default(), findings: Default::default(), samples: vec![], funcs: Default::default(), vmap: Default::default(), nf, queue: VecDeque::new(), ufs: HashMap::new(), axioms: HashSet::new() }
    }

    fn init_state(&mut self, entry: u32) -> State {
        let mut mem = Mem { chunks: vec![], next: 0 };
        for _ in 0..self.nf { mem.next += 1; }
        for gi in 0..self.m.globals.len() {
            let g = &self.m.globals[gi];
            let id = mem.next; mem.next += 1;
            if g.external { continue; }
            let mut data = vec![0u8; g.size as usize];
            if let Some((t, v)) = &g.init { Self::write_const(&mut data, 0, t, v); }
            mem.set(id, Some(Rc::new(Obj { data, sym: None, ro: g.constant })));
        }
        let f = &self.m.funcs[entry as usize];
        let fr = Frame { f: entry, b: 0, ip: 0, regs: vec![Val::C(0); f.nregs as usize], allocas: vec![], dst: None, inv: None };
        State { frames: vec![fr], mem, pc: vec![], fixed: HashMap::new(), model: Rc::new(Model::default()), inputs: vec![], obs: vec![], steps: 0, panic_ok: false, fmt_on: false, forks: 0, unsure: false }
    }
    fn write_const(d: &mut [u8], off: usize, t: &Ty, v: &Val) {
        match v {
            Val::C(k) => { let n = t.store_size() as usize; for i in 0..n { d[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 }; } }
            Val::A(vs) => { for (i, x) in vs.iter().enumerate() { Self::write_const(d, off + t.field_off(i) as usize, &t.elem(i), x); } }
            _ => {}
        }
    }

    pub fn run(&mut self, entry: u32, workdir: &str) {
        let s = self.init_state(entry);
        self.queue.push_back(s);
        let target = if self.o.jobs > 1 { self.o.jobs * 40 } else { usize::MAX };
        while let Some(st) = self.queue.pop_front() {
            self.path(st);
            if self.stop() { break; }
            if self.queue.len() >= target { break; }
        }
        if self.queue.is_empty() || self.o.jobs <= 1 { return; }
        if self.stop() { self.t.incomplete += self.queue.len() as u64; return; }
        // parallel phase
        let n = self.queue.len();
        let states: Vec<State> = self.queue.drain(..).collect();
        let ctr = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *mut std::sync::atomic::AtomicUsize };
        let mut pids = vec![];
        for w in 0..self.o.jobs {
            let pid = unsafe { fork() };
            if pid == 0 {
                self.t = Default::default(); self.solver.st = Default::default(); self.viols.clear(); self.errors.clear(); self.covers.clear(); self.samples.clear(); self.findings.clear();
                self.solver.reset();
                loop {
                    let i = unsafe { (*ctr).fetch_add(1, std::sync::atomic::Ordering::SeqCst) };
                    if i >= n { break; }
                    if self.stop() { self.t.incomplete += 1; continue; }
                    self.queue.push_back(states[i].clone());
                    while let Some(st) = self.queue.pop_back() {
                        self.path(st);
                        if self.stop() { self.t.incomplete += self.queue.len() as u64; self.queue.clear(); }
                    }
                }
                let _ = std::fs::write(format!("{}/w{}.txt", workdir, w), self.dump());
                unsafe { _exit(0) };
            }
            pids.push((pid, w));
        }
        for (pid, w) in pids {
            let mut stt = 0i32;
            unsafe { waitpid(pid, &mut stt, 0) };
            let f = format!("{}/w{}.txt", workdir, w);
            match std::fs::read_to_string(&f) { Ok(s) => self.merge(&s), Err(_) => { *self.errors.entry(format!("worker died (status {})", stt)).or_insert(0) += 1; self.t.incomplete += 1; } }
            let _ = std::fs::remove_file(&f);
        }
    }
    fn stop(&self) -> bool { std::time::Instant::now() > self.o.deadline || self.t.paths > self.o.max_paths }

    pub fn dump(&self) -> String {
        let mut s = String::new();
        let t = &self.t; let q = &self.solver.st;
        s += &format!("T {} {} {} {} {} {} {} {} {} {} {} {}\n", t.paths, t.killed, t.panics_ok, t.instrs, t.forks, t.asserts, t.asserts_const, t.max_steps, t.incomplete, t.concret, t.max_forks, t.unsure);
        s += &format!("Q {} {} {} {} {} {} {} {} {}\n", q.queries, q.sat, q.unsat, q.unknown, q.cache, q.time_ns, q.fallback, q.cross, q.cross_bad);
        let ns = |v: &Vec<u128>| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
        for v in self.viols.values() { s += &format!("V\t{}\t{}\t{}\t{}\t{}\n", v.kind, v.id, v.loc, ns(&v.inputs), v.stack.join(";")); }
        for (k, v) in &self.findings { s += &format!("N\t{}\t{}\n", k, ns(&v.inputs)); }
        for (k, n) in &self.errors { s += &format!("E\t{}\t{}\n", k.replace('\n', " ").replace('\t', " "), n); }
        for (k, n) in &self.covers { s += &format!("C {} {}\n", k, n); }
        for x in &self.samples { s += &format!("S\t{}\t{}\t{}\n", x.end, ns(&x.inputs), ns(&x.obs)); }
        for f in &self.funcs { s += &format!("F {}\n", f); }
        s
    }
    fn merge(&mut self, s: &str) {
        let pn = |s: &str| -> Vec<u128> { if s.is_empty() { vec![] } else { s.split(',').map(|x| x.parse().unwrap()).collect() } };
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("T ") { let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); let t = &mut self.t; t.paths += v[0]; t.killed += v[1]; t.panics_ok += v[2]; t.instrs += v[3]; t.forks += v[4]; t.asserts += v[5]; t.asserts_const += v[6]; t.max_steps = t.max_steps.max(v[7]); t.incomplete += v[8]; t.concret += v[9]; t.max_forks = t.max_forks.max(v[10]); t.unsure += v[11]; }
            else if let Some(r) = l.strip_prefix("Q ") { let v: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); let q = &mut self.solver.st; q.queries += v[0]; q.sat += v[1]; q.unsat += v[2]; q.unknown += v[3]; q.cache += v[4]; q.time_ns += v[5]; q.fallback += v[6]; q.cross += v[7]; q.cross_bad += v[8]; }
            else if let Some(r) = l.strip_prefix("V\t") { let p: Vec<&str> = r.split('\t').collect(); let v = Violation { kind: p[0].into(), id: p[1].parse().unwrap(), loc: p[2].into(), inputs: pn(p[3]), stack: p[4].split(';').map(|x| x.to_string()).collect() }; self.viols.entry((v.kind.clone(), v.id, v.loc.clone())).or_insert(v); }
            else if let Some(r) = l.strip_prefix("N\t") { let p: Vec<&str> = r.split('\t').collect(); let id = p[0].parse().unwrap(); self.findings.entry(id).or_insert(Violation { kind: "finding".into(), id, loc: String::new(), inputs: pn(p[1]), stack: vec![] }); }
            else if let Some(r) = l.strip_prefix("E\t") { let p: Vec<&str> = r.split('\t').collect(); *self.errors.entry(p[0].into()).or_insert(0) += p[1].parse::<u64>().unwrap(); }
            else if let Some(r) = l.strip_prefix("C ") { let p: Vec<u64> = r.split(' ').map(|x| x.parse().unwrap()).collect(); *self.covers.entry(p[0]).or_insert(0) += p[1]; }
            else if let Some(r) = l.strip_prefix("S\t") { let p: Vec<&str> = r.split('\t').collect(); self.samples.push(Sample { end: p[0].into(), inputs: pn(p[1]), obs: pn(p[2]) }); }
            else if let Some(r) = l.strip_prefix("F ") { self.funcs.insert(r.parse().unwrap()); }
        }
    }

    fn path(&mut self, mut st: State) {
        let mut end = self.exec(&mut st);
        if st.unsure && !matches!(end, End::Killed | End::Err(_)) {
            let bad = match end { End::Done => false, End::Panic(_) => !st.panic_ok, _ => true };
            if bad {
                match self.model_of(&st, tt()) {
                    Ok(Some(m)) => { st.model = m; st.unsure = false; }
                    Ok(None) => end = End::Killed,
                    Err(()) => { self.t.incomplete += 1; end = End::Err(match end { End::Panic(l) => format!("a panic on a path that is not decided: {}", l), _ => "a violation on a path that is not decided".into() }); }
                }
            }
        }
        self.t.max_steps = self.t.max_steps.max(st.steps);
        self.t.max_forks = self.t.max_forks.max(st.forks as u64);
        let inputs = || -> Vec<u128> { st.inputs.iter().map(|v| st.model.eval(var(*v, var_width(*v)))).collect() };
        let stack = || -> Vec<String> { st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.f as usize].pretty.replace(';', ",").replace('\t', " ")).collect() };
        let mut sample_end = None;
        match end {
            End::Done => { self.t.paths += 1; sample_end = Some("done"); }
            End::Killed => { self.t.killed += 1; }
            End::Panic(loc) => {
                self.t.paths += 1;
                if st.panic_ok { self.t.panics_ok += 1; sample_end = Some("panic"); }
                else { let v = Violation { kind: "panic".into(), id: 0, loc: loc.clone(), inputs: inputs(), stack: stack() }; self.viols.entry(("panic".into(), 0, loc)).or_insert(v); }
            }
            End::Viol(k, id, loc) => { self.t.paths += 1; let v = Violation { kind: k.clone(), id, loc: loc.clone(), inputs: inputs(), stack: stack() }; self.viols.entry((k, id, loc)).or_insert(v); }
            End::Err(e) => { let s = stack(); let e = format!("{} @ {}", e, s.iter().take(4).cloned().collect::<Vec<_>>().join(" < ")); let e = e.chars().take(700).collect::<String>(); *self.errors.entry(e).or_insert(0) += 1; }
        }
        if st.unsure { sample_end = None; }
        if let Some(e) = sample_end {
            if self.samples.len() < self.o.max_samples && (self.t.paths.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(self.o.seed) >> 20) % self.o.sample_every == 0 || self.samples.is_empty() {
                let obs = st.obs.iter().map(|v| match v { Val::C(k) => *k, Val::S(t) => st.model.eval(*t), _ => 0 }).collect();
                self.samples.push(Sample { inputs: inputs(), obs, end: e.into() });
            }
        }
    }

    fn add_pc(&self, st: &mut State, t: Tid) {
        if is_const(t) == Some(1) { return; }
        let n = node(t);
        if n.op == Op::And && n.w == 1 { self.add_pc(st, n.a); self.add_pc(st, n.b); return; }
        if n.op == Op::Eq { if let (Op::Var, Some(k)) = (node(n.a).op, is_const(n.b)) { st.fixed.insert(node(n.a).k as u32, k); } }
        if n.op == Op::Var && n.w == 1 { st.fixed.insert(n.k as u32, 1); }
        if n.op == Op::Xor && n.w == 1 && node(n.a).op == Op::Var { st.fixed.insert(node(n.a).k as u32, 0); }
        st.pc.push(t);
    }
    fn all_fixed(&self, st: &State, t: Tid) -> bool { vars_of(t).iter().all(|v| st.fixed.contains_key(v)) }

    /// Decide a branch condition. Returns (current side, Some(forked state for the other side)).
    fn branch(&mut self, st: &mut State, cond: Tid) -> R<(bool, Option<State>)> {
        if let Some(k) = is_const(cond) { return Ok((k == 1, None)); }
        self.solver.quick = self.o.lazy;
        let r = self.branch_(st, cond);
        self.solver.quick = false;
        r
    }
    fn branch_(&mut self, st: &mut State, cond: Tid) -> R<(bool, Option<State>)> {
        if st.unsure {
            // decided by the path condition alone, or both sides are followed
            let (y, n) = (self.solver.check(&st.pc, cond, &st.model), self.solver.check(&st.pc, not(cond), &st.model));
            return match (y, n) {
                (Res::Unsat, Res::Unsat) => Err(Stop::End(End::Killed)),
                (Res::Unsat, _) => Ok((false, None)),
                (_, Res::Unsat) => Ok((true, None)),
                (y, n) => {
                    self.t.forks += 1;
                    st.forks += 1;
                    let mut o = st.clone();
                    self.add_pc(&mut o, not(cond));
                    self.add_pc(st, cond);
                    for (s, r) in [(&mut *st, y), (&mut o, n)] { if let Res::Sat(m) = r { if s.pc.iter().all(|&t| m.eval(t) == 1) { s.model = m; s.unsure = false; } } }
                    Ok((true, Some(o)))
                }
            };
        }
        let ev = st.model.eval(cond) != 0;
        if self.all_fixed(st, cond) { return Ok((ev, None)); }
        let other = if ev { not(cond) } else { cond };
        match self.solver.check(&st.pc, other, &st.model) {
            Res::Unsat => Ok((ev, None)),
            r => {
                self.t.forks += 1;
                st.forks += 1;
                let mut o = st.clone();
                if let Res::Sat(m) = r { o.model = m; } else { self.t.unsure += 1; o.unsure = true; }
                self.add_pc(&mut o, other);
                self.add_pc(st, not(other));
                Ok((ev, Some(o)))
            }
        }
    }
    /// A model of the whole path condition and `cond`: None if there is none, Err if that is not known.
    fn model_of(&mut self, st: &State, cond: Tid) -> Result<Option<Rc<Model>>, ()> {
        let good = |m: &Rc<Model>| m.eval(cond) == 1 && st.pc.iter().all(|&t| m.eval(t) == 1);
        if let Some(m) = self.guess(st, cond) { return Ok(Some(m)); }
        if let Ok(r) = self.refine(st, cond) { return Ok(r); }
        let whole = st.pc.iter().fold(cond, |x, &t| and(x, t));
        match self.solver.check(&[], whole, &st.model) { Res::Unsat => Ok(None), Res::Sat(m) if good(&m) => Ok(Some(m)), _ => Err(()) }
    }
    /// Tries ordinary floating-point inputs, the functions having their real values.
    fn guess(&mut self, st: &State, cond: Tid) -> Option<Rc<Model>> {
        let mut vs: Vec<u32> = vars_of(cond).iter().cloned().collect();
        for &t in &st.pc { vs.extend(vars_of(t).iter()); }
        vs.sort_unstable(); vs.dedup();
        let uf: Vec<(u32, (u32, Tid, Tid))> = { let mut u: Vec<_> = self.solver.ufapp.iter().map(|(k, v)| (*k, *v)).collect(); u.sort_unstable(); let mut need: std::collections::HashSet<u32> = vs.iter().cloned().collect(); let mut keep = vec![]; for (v, k) in u.into_iter().rev() { if need.contains(&v) { need.extend(vars_of(k.1).iter()); if k.2 != 0 { need.extend(vars_of(k.2).iter()); } keep.push((v, k)); } } keep.reverse(); keep };
        let free: Vec<u32> = st.inputs.iter().cloned().filter(|v| var_width(*v) == 64 && !st.fixed.contains_key(v) && !self.solver.ufapp.contains_key(v)).collect();
        if free.is_empty() { return None; }
        const K: [f64; 16] = [0.5, 2.0, -3.0, 1.0, 0.25, -0.5, 0.75, 7.5, 0.0, -1.0, 0.1, 30.0, 1e-3, -30.0, 100.0, 1e6];
        let mut r = 0x9E3779B97F4A7C15u64;
        for i in 0..600 {
            let mut vals = st.model.vals.clone();
            for (v, k) in &st.fixed { vals.insert(*v, *k); }
            for &v in &free { r ^= r << 13; r ^= r >> 7; r ^= r << 17; vals.insert(v, K[(r % if i < 100 { 6 } else { 16 }) as usize].to_bits() as u128); }
            let mut m = Model::new(vals);
            for (v, (f, a, b)) in &uf { let x = self.native(*f, m.eval(*a), if *b == 0 { 0 } else { m.eval(*b) }); if let Some(x) = x { let mut vals = m.vals.clone(); vals.insert(*v, x); m = Model::new(vals); } }
            if m.eval(cond) == 1 && st.pc.iter().all(|&t| m.eval(t) == 1) { return Some(Rc::new(m)); }
        }
        None
    }
    /// Pin a value to a single concrete value, forking for the alternatives (which re-execute the instruction).
    fn conc(&mut self, st: &mut State, v: &Val, w: u32) -> R<u128> {
        match v {
            Val::C(k) => Ok(*k),
            Val::A(_) => err("concretize aggregate"),
            Val::S(t) => {
                let k = st.model.eval(*t);
                if st.unsure { return err("a value is needed on a path that is not decided"); }
                if self.all_fixed(st, *t) { return Ok(k); }
                let e = eq(*t, cst(w, k));
                let ne = not(e);
                match self.solver.check(&st.pc, ne, &st.model) {
                    Res::Unsat => {}
                    Res::Sat(m) => { self.t.concret += 1; self.t.forks += 1; st.forks += 1; let mut o = st.clone(); o.model = m; self.add_pc(&mut o, ne); let fr = o.frames.last_mut().unwrap(); fr.ip -= 1; self.queue.push_back(o); }
                    Res::Unknown => { self.t.incomplete += 1; *self.errors.entry("solver unknown while concretizing".into()).or_insert(0) += 1; }
                }
                self.add_pc(st, e);
                Ok(k)
            }
        }
    }

    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> Val { match o { Opd::R(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() } }
    #[inline]
    fn set(&self, st: &mut State, r: u32, v: Val) { st.frames.last_mut().unwrap().regs[r as usize] = v; }

    // ---- memory ----
    fn obj_of(&self, a: u128) -> (u64, u64) { (((a >> 32) as u64).wrapping_sub(1), (a & 0xffff_ffff) as u64) }
    fn load_bits(&self, st: &State, a: u128, n: u64) -> R<Val> {
        let (id, off) = self.obj_of(a);
        let Some(o) = st.mem.get(id) else { return Err(Stop::End(End::Viol("ub".into(), 1, format!("load of {} bytes from invalid address {:#x}", n, a)))) };
        if off + n > o.data.len() as u64 { return Err(Stop::End(End::Viol("ub".into(), 2, format!("out-of-bounds load ({} bytes at offset {} of {})", n, off, o.data.len())))); }
        Ok(Self::obj_bits(o, off as usize, n as usize))
    }
    fn obj_bits(o: &Obj, off: usize, n: usize) -> Val {
        if let Some(s) = &o.sym {
            if s[off..off + n].iter().any(|x| x.0 != 0) {
                let (t0, i0) = s[off];
                if t0 != 0 && i0 == 0 && width(t0) == 8 * n as u32 && (0..n).all(|i| s[off + i] == (t0, i as u8)) { return vt(t0); }
                let byte = |i: usize| { let (t, k) = s[off + i]; if t == 0 { cst(8, o.data[off + i] as u128) } else { extract(t, k as u32 * 8, 8) } };
                let mut r = byte(n - 1);
                for i in (0..n - 1).rev() { r = concat(r, byte(i)); }
                return vt(r);
            }
        }
        let mut k = 0u128;
        for i in (0..n).rev() { k = (k << 8) | o.data[off + i] as u128; }
        Val::C(k)
    }
    fn store_bits(&self, st: &mut State, a: u128, n: u64, v: &Val) -> R<()> {
        let (id, off) = self.obj_of(a);
        let Some(o) = st.mem.get_mut(id) else { return Err(Stop::End(End::Viol("ub".into(), 3, format!("store of {} bytes to invalid address {:#x}", n, a)))) };
        if off + n > o.data.len() as u64 { return Err(Stop::End(End::Viol("ub".into(), 4, format!("out-of-bounds store ({} bytes at offset {} of {})", n, off, o.data.len())))); }
        if o.ro { return Err(Stop::End(End::Viol("ub".into(), 5, "store to constant memory".into()))); }
        let (off, n) = (off as usize, n as usize);
        match v {
            Val::C(k) => {
                for i in 0..n { o.data[off + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 }; }
                if let Some(s) = &mut o.sym { for i in 0..n { s[off + i] = (0, 0); } }
            }
            Val::S(t) => {
                let t = zext(*t, 8 * n as u32);
                if let Some(k) = is_const(t) { return self.store_bits(st, a, n as u64, &Val::C(k)); }
                let l = o.data.len();
                let s = o.sym.get_or_insert_with(|| vec![(0, 0); l]);
                for i in 0..n { s[off + i] = (t, i as u8); }
            }
            _ => return err("store aggregate bits"),
        }
        Ok(())
    }
    fn load_ty(&self, st: &State, a: u128, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => { let n = (*w as u64 + 7) / 8; let v = self.load_bits(st, a, n)?; Ok(if *w as u64 == n * 8 { v } else { match v { Val::C(k) => Val::C(k & mask(*w)), Val::S(t) => vt(extract(t, 0, *w)), v => v } }) }
            Ty::F32 => self.load_bits(st, a, 4),
            Ty::F64 | Ty::Ptr => self.load_bits(st, a, 8),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => { let tot = n * e.bits(); let v = self.load_bits(st, a, (tot as u64 + 7) / 8)?; let mut out = vec![]; for i in 0..*n { out.push(match &v { Val::C(k) => Val::C((k >> (i * e.bits())) & mask(e.bits())), Val::S(t) => vt(extract(*t, i * e.bits(), e.bits())), _ => unreachable!() }); } Ok(Val::A(Rc::new(out))) }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => { let mut v = vec![]; for i in 0..t.count() { v.push(self.load_ty(st, a + t.field_off(i) as u128, &t.elem(i))?); } Ok(Val::A(Rc::new(v))) }
            _ => err("load type"),
        }
    }
    fn store_ty(&self, st: &mut State, a: u128, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr => self.store_bits(st, a, t.store_size(), v),
            Ty::Vec(n, e) if e.bits() % 8 != 0 => { let p = self.pack(v, *n, e.bits())?; self.store_bits(st, a, t.store_size(), &p) }
            Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..) => { let Val::A(vs) = v else { return err("store agg") }; for (i, x) in vs.iter().enumerate() { self.store_ty(st, a + t.field_off(i) as u128, &t.elem(i), x)?; } Ok(()) }
            _ => err("store type"),
        }
    }
    fn pack(&self, v: &Val, n: u32, b: u32) -> R<Val> {
        let Val::A(vs) = v else { return err("pack") };
        if n * b > 128 { return err("pack >128"); }
        if vs.iter().all(|x| c(x).is_some()) { let mut k = 0u128; for i in (0..n as usize).rev() { k = if b >= 128 { 0 } else { k << b } | c(&vs[i]).unwrap(); } return Ok(Val::C(k)); }
        let mut r = tid(&vs[n as usize - 1], b);
        for i in (0..n as usize - 1).rev() { r = concat(r, tid(&vs[i], b)); }
        Ok(vt(r))
    }
    fn copy(&self, st: &mut State, d: u128, s: u128, n: u64) -> R<()> {
        if n == 0 || d == s { return Ok(()); }
        let (si, so) = self.obj_of(s);
        let Some(o) = st.mem.get(si).cloned() else { return Err(Stop::End(End::Viol("ub".into(), 6, format!("memcpy from invalid address {:#x}", s)))) };
        if so + n > o.data.len() as u64 { return Err(Stop::End(End::Viol("ub".into(), 7, format!("memcpy source out of bounds ({}+{} of {})", so, n, o.data.len())))); }
        let (di, dof) = self.obj_of(d);
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let Some(t) = st.mem.get_mut(di) else { return Err(Stop::End(End::Viol("ub".into(), 8, format!("memcpy to invalid address {:#x}", d)))) };
        if dof + n > t.data.len() || t.ro { return Err(Stop::End(End::Viol("ub".into(), 9, format!("memcpy destination out of bounds ({}+{} of {})", dof, n, t.data.len())))); }
        t.data[dof..dof + n].copy_from_slice(&o.data[so..so + n]);
        let l = t.data.len();
        match (&o.sym, &mut t.sym) {
            (None, None) => {}
            (None, Some(x)) => for i in 0..n { x[dof + i] = (0, 0); },
            (Some(y), x) => { if x.is_some() || y[so..so + n].iter().any(|e| e.0 != 0) { let x = x.get_or_insert_with(|| vec![(0, 0); l]); x[dof..dof + n].copy_from_slice(&y[so..so + n]); } }
        }
        Ok(())
    }

    /// Load through a symbolic address: read-over-ITE when all targets lie in one object, else fork per address.
    fn load_sym(&mut self, st: &mut State, at: Tid, t: &Ty) -> R<Val> {
        let n = t.store_size();
        if st.unsure { return err("an address is needed on a path that is not decided"); }
        let a0 = st.model.eval(at);
        let (id, _) = self.obj_of(a0);
        if t.is_scalar() && !self.all_fixed(st, at) {
            if let Some(o) = st.mem.get(id).cloned() {
                let len = o.data.len() as u64;
                if len >= n && len / n <= 600 {
                    let base = addr_of_obj(id);
                    let offt = bin(Op::Sub, at, cst(64, base));
                    let oob = not(bin(Op::Ule, offt, cst(64, (len - n) as u128)));
                    if let Res::Unsat = self.solver.check(&st.pc, oob, &st.model) {
                        // stride: n if always aligned, else 1
                        let stride = if n > 1 && (base as u64 % n == 0) { let mis = not(eq(bin(Op::URem, offt, cst(64, n as u128)), cst(64, (a0 - base) % n as u128))); if let Res::Unsat = self.solver.check(&st.pc, mis, &st.model) { n } else { 1 } } else { 1 };
                        let first = if stride == 1 { 0 } else { (a0 - base) as u64 % n };
                        let mut r: Option<Tid> = None;
                        let mut off = first;
                        let w = t.bits();
                        let mut groups: Vec<(Tid, Vec<u64>)> = vec![];
                        while off + n <= len {
                            let v = Self::obj_bits(&o, off as usize, n as usize);
                            let v = tid(&match v { Val::C(k) => Val::C(k & mask(w)), Val::S(t) => Val::S(extract(t, 0, w)), v => v }, w);
                            if let Some(g) = groups.iter_mut().find(|g| g.0 == v) { g.1.push(off) } else { groups.push((v, vec![off])) }
                            off += stride;
                        }
                        groups.sort_by_key(|g| std::cmp::Reverse(g.1.len()));
                        for (v, offs) in groups { r = Some(match r { None => v, Some(acc) => { let mut cnd = ff(); for o in offs { cnd = or(cnd, eq(offt, cst(64, o as u128))); } ite(cnd, v, acc) } }); }
                        return Ok(vt(r.unwrap()));
                    }
                }
            }
        }
        let a = self.conc(st, &Val::S(at), 64)?;
        self.load_ty(st, a, t)
    }

    // ---- arithmetic ----
    fn bin(&self, op: Op, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) { let e = t.elem(0); let mut v = vec![]; for (p, q) in x.iter().zip(y.iter()) { v.push(self.bin(op, &e, p, q)?); } return Ok(Val::A(Rc::new(v))); }
        let w = t.bits();
        if w > 128 || w == 0 { return err(format!("width {}", w)); }
        if let (Val::C(x), Val::C(y)) = (a, b) { return Ok(Val::C(fold(op, w, w, *x, *y, 0, w, 0))); }
        Ok(vt(bin(op, tid(a, w), tid(b, w))))
    }
    fn icmp(&self, p: Pred, t: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) { let e = t.elem(0); let mut v = vec![]; for (m, n) in x.iter().zip(y.iter()) { v.push(self.icmp(p, &e, m, n)?); } return Ok(Val::A(Rc::new(v))); }
        let w = t.bits();
        if w > 128 || w == 0 { return err(format!("icmp width {}", w)); }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let (sxx, sy) = (sx(x, w), sx(y, w));
            return Ok(Val::C(match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ult => x < y, Pred::Ule => x <= y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Slt => sxx < sy, Pred::Sle => sxx <= sy, Pred::Sgt => sxx > sy, Pred::Sge => sxx >= sy } as u128));
        }
        let (x, y) = (tid(a, w), tid(b, w));
        Ok(vt(match p { Pred::Eq => eq(x, y), Pred::Ne => not(eq(x, y)), Pred::Ult => bin(Op::Ult, x, y), Pred::Ule => bin(Op::Ule, x, y), Pred::Ugt => bin(Op::Ult, y, x), Pred::Uge => bin(Op::Ule, y, x), Pred::Slt => bin(Op::Slt, x, y), Pred::Sle => bin(Op::Sle, x, y), Pred::Sgt => bin(Op::Slt, y, x), Pred::Sge => bin(Op::Sle, y, x) }))
    }
    fn fcmp(&self, p: &str, w: u32, a: &Val, b: &Val) -> Val {
        let (x, y) = (tid(a, w), tid(b, w));
        let uno = || or(not(bin(Op::FEq, x, x)), not(bin(Op::FEq, y, y)));
        vt(match p {
            "oeq" => bin(Op::FEq, x, y), "olt" => bin(Op::FLt, x, y), "ole" => bin(Op::FLe, x, y), "ogt" => bin(Op::FLt, y, x), "oge" => bin(Op::FLe, y, x),
            "une" => not(bin(Op::FEq, x, y)), "uge" => not(bin(Op::FLt, x, y)), "ugt" => not(bin(Op::FLe, x, y)), "ule" => not(bin(Op::FLt, y, x)), "ult" => not(bin(Op::FLe, y, x)),
            "uno" => uno(), "ord" => not(uno()), "ueq" => or(uno(), bin(Op::FEq, x, y)), "one" => and(not(uno()), not(bin(Op::FEq, x, y))),
            "true" => tt(), _ => ff(),
        })
    }
    fn flat(&self, t: &Ty, v: &Val) -> R<(Val, u32)> { match t { Ty::Vec(n, e) => Ok((self.pack(v, *n, e.bits())?, n * e.bits())), _ => Ok((v.clone(), t.bits())) } }
    fn unflat(&self, t: &Ty, v: &Val) -> Val { match t { Ty::Vec(n, e) => { let b = e.bits(); Val::A(Rc::new((0..*n).map(|i| match v { Val::C(k) => Val::C((k >> (i * b)) & mask(b)), Val::S(t) => vt(extract(*t, i * b, b)), v => v.clone() }).collect())) } _ => v.clone() } }
    fn cast(&self, k: Cast, ft: &Ty, t: &Ty, v: &Val) -> R<Val> {
        if k == Cast::Bit {
            if let (Ty::Vec(..), Ty::Vec(..)) = (ft, t) { if ft.elem(0).bits() == t.elem(0).bits() { return Ok(v.clone()); } }
            if let (Ty::Vec(..), _) | (_, Ty::Vec(..)) = (ft, t) { let (f, _) = self.flat(ft, v)?; return Ok(self.unflat(t, &f)); }
            return Ok(v.clone());
        }
        if let Val::A(x) = v { let (e, f) = (ft.elem(0), t.elem(0)); let mut o = vec![]; for y in x.iter() { o.push(self.cast(k, &e, &f, y)?); } return Ok(Val::A(Rc::new(o))); }
        let (fw, w) = (ft.bits(), t.bits());
        if fw > 128 || w > 128 { return err("cast width"); }
        if let Val::C(x) = v {
            return Ok(Val::C(match k { Cast::Trunc => x & mask(w), Cast::ZExt => *x, Cast::SExt => (sx(*x, fw) as u128) & mask(w), Cast::FpToSi => fold(Op::FToSI, w, fw, *x, 0, 0, 0, 0), Cast::FpToUi => fold(Op::FToUI, w, fw, *x, 0, 0, 0, 0), Cast::SiToFp => fold(Op::SIToF, w, fw, *x, 0, 0, 0, 0), Cast::UiToFp => fold(Op::UIToF, w, fw, *x, 0, 0, 0, 0), _ => fold(Op::FConv, w, fw, *x, 0, 0, 0, 0) }));
        }
        let x = tid(v, fw);
        Ok(vt(match k { Cast::Trunc => extract(x, 0, w), Cast::ZExt => zext(x, w), Cast::SExt => sext(x, w), Cast::FpToSi => un(Op::FToSI, x, w), Cast::FpToUi => un(Op::FToUI, x, w), Cast::SiToFp => un(Op::SIToF, x, w), Cast::UiToFp => un(Op::UIToF, x, w), _ => un(Op::FConv, x, w) }))
    }
    fn select(&self, cnd: Tid, t: &Ty, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => Val::A(Rc::new(x.iter().zip(y.iter()).enumerate().map(|(i, (p, q))| self.select(cnd, &t.elem(i), p, q)).collect())),
            _ => vt(ite(cnd, tid(a, t.bits()), tid(b, t.bits()))),
        }
    }

    fn goto(&mut self, st: &mut State, b: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.b;
        let f = &self.m.funcs[fr.f as usize];
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            let mut nv = Vec::with_capacity(blk.phis.len());
            for (d, ins) in &blk.phis {
                let Some((_, o)) = ins.iter().find(|x| x.0 == from) else { return err("phi without predecessor") };
                nv.push((*d, match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() }));
            }
            for (d, v) in nv { fr.regs[d as usize] = v; }
        }
        fr.b = b;
        fr.ip = 0;
        Ok(())
    }

    fn exec(&mut self, st: &mut State) -> End {
        let mut cnt = 0u64;
        loop {
            st.steps += 1;
            cnt += 1;
            if cnt & 0xfff == 0 {
                if st.steps > self.o.max_steps { self.t.instrs += cnt; return End::Viol("hang".into(), 0, format!("no answer within {} IR steps", self.o.max_steps)); }
                if std::time::Instant::now() > self.o.deadline { self.t.instrs += cnt; self.t.incomplete += 1; return End::Killed; }
            }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::End(e)) => { self.t.instrs += cnt; return e; }
                Err(Stop::Refork) => { self.t.instrs += cnt; return End::Killed; }
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (fi, b, ip) = { let fr = st.frames.last_mut().unwrap(); let r = (fr.f, fr.b, fr.ip); fr.ip += 1; r };
        // SAFETY: the module is never mutated during execution
        let ins: &I = unsafe { &*(&self.m.funcs[fi as usize].blocks[b as usize].ins[ip as usize] as *const I) };
        match ins {
            I::Bin(op, d, t, x, y) => { let (x, y) = (self.opd(st, x), self.opd(st, y)); let v = self.bin(*op, t, &x, &y)?; self.set(st, *d, v); }
            I::ICmp(p, d, t, x, y) => { let (x, y) = (self.opd(st, x), self.opd(st, y)); let v = self.icmp(*p, t, &x, &y)?; self.set(st, *d, v); }
            I::FCmp(p, d, t, x, y) => { let (x, y) = (self.opd(st, x), self.opd(st, y)); let v = self.fcmp(p, t.bits(), &x, &y); self.set(st, *d, v); }
            I::FNeg(d, t, x) => { let x = self.opd(st, x); let w = t.bits(); let v = vt(bin(Op::Xor, tid(&x, w), cst(w, 1u128 << (w - 1)))); self.set(st, *d, v); }
            I::FRem(d, t, x, y) => { let (x, y) = (self.opd(st, x), self.opd(st, y)); match (c(&x), c(&y)) { (Some(a), Some(b)) if t.bits() == 64 => { let r = f64::from_bits(a as u64) % f64::from_bits(b as u64); self.set(st, *d, Val::C(r.to_bits() as u128)); } _ => { let v = self.uf(9999, tid(&x, t.bits()), tid(&y, t.bits()), t.bits()); self.set(st, *d, v); } } }
            I::Cast(k, d, ft, t, x) => { let x = self.opd(st, x); let v = self.cast(*k, ft, t, &x)?; self.set(st, *d, v); }
            I::Select(d, ct, t, cnd, x, y) => {
                let (cv, x, y) = (self.opd(st, cnd), self.opd(st, x), self.opd(st, y));
                let v = if let (Val::A(cs), Ty::Vec(..)) = (&cv, &**ct) { let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return err("vector select") }; Val::A(Rc::new(cs.iter().enumerate().map(|(i, q)| match c(q) { Some(1) => xs[i].clone(), Some(_) => ys[i].clone(), None => self.select(tid(q, 1), &t.elem(i), &xs[i], &ys[i]) }).collect())) }
                else { match c(&cv) { Some(1) => x, Some(_) => y, None => self.select(tid(&cv, 1), t, &x, &y) } };
                self.set(st, *d, v);
            }
            I::Gep(d, base, off, vars) => {
                let bv = self.opd(st, base);
                let mut acc = match bv { Val::C(k) => Val::C((k as u64).wrapping_add(*off as u64) as u128), Val::S(t) => vt(bin(Op::Add, t, cst(64, *off as u64 as u128))), _ => return err("vector gep") };
                for (o, w, s) in vars {
                    let i = self.opd(st, o);
                    acc = match (&acc, &i) {
                        (Val::C(a), Val::C(k)) => Val::C((*a as u64).wrapping_add((sx(*k, *w) as i64 as u64).wrapping_mul(*s as u64)) as u128),
                        _ => { let it = tid(&i, *w); let it = if *w < 64 { sext(it, 64) } else { extract(it, 0, 64) }; vt(bin(Op::Add, tid(&acc, 64), bin(Op::Mul, it, cst(64, *s as u64 as u128)))) }
                    };
                }
                self.set(st, *d, acc);
            }
            I::Load(d, t, p) => {
                let p = self.opd(st, p);
                let v = match c(&p) { Some(a) => self.load_ty(st, a, t)?, None => { let Val::S(at) = p else { return err("load ptr") }; self.load_sym(st, at, t)? } };
                self.set(st, *d, v);
            }
            I::Store(t, v, p) => { let (v, p) = (self.opd(st, v), self.opd(st, p)); let a = self.conc(st, &p, 64)?; self.store_ty(st, a, t, &v)?; }
            I::Alloca(d, sz, n) => { let n = self.opd(st, n); let Some(n) = c(&n) else { return err("symbolic alloca") }; let id = st.mem.alloc(sz * n as u64); st.frames.last_mut().unwrap().allocas.push(id); self.set(st, *d, Val::C(addr_of_obj(id))); }
            I::Br(b) => self.goto(st, *b)?,
            I::CondBr(cnd, x, y) => {
                let v = self.opd(st, cnd);
                match c(&v) {
                    Some(k) => self.goto(st, if k == 1 { *x } else { *y })?,
                    None => {
                        let t = tid(&v, 1);
                        let (side, other) = self.branch(st, t)?;
                        if let Some(mut o) = other { self.goto(&mut o, if side { *y } else { *x })?; self.queue.push_back(o); }
                        self.goto(st, if side { *x } else { *y })?;
                    }
                }
            }
            I::Switch(w, v, def, cases) => {
                let v = self.opd(st, v);
                match c(&v) {
                    Some(k) => { let b = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def); self.goto(st, b)?; }
                    None => {
                        let t = tid(&v, *w);
                        // group by target
                        let mut groups: Vec<(u32, Tid)> = vec![];
                        let mut none = tt();
                        for (k, b) in cases { let e = eq(t, cst(*w, *k)); none = and(none, not(e)); if let Some(g) = groups.iter_mut().find(|g| g.0 == *b) { g.1 = or(g.1, e) } else { groups.push((*b, e)) } }
                        if let Some(g) = groups.iter_mut().find(|g| g.0 == *def) { g.1 = or(g.1, none) } else { groups.push((*def, none)) }
                        if st.unsure { return err("a switch on a path that is not decided"); }
                        let fixed = self.all_fixed(st, t);
                        let cur = groups.iter().position(|g| st.model.eval(g.1) != 0).unwrap();
                        if !fixed {
                            let mut any = false;
                            for (i, g) in groups.iter().enumerate() {
                                if i == cur { continue; }
                                match self.solver.check(&st.pc, g.1, &st.model) {
                                    Res::Unsat => {}
                                    Res::Sat(m) => { any = true; self.t.forks += 1; st.forks += 1; let mut o = st.clone(); o.model = m; self.add_pc(&mut o, g.1); self.goto(&mut o, g.0)?; self.queue.push_back(o); }
                                    Res::Unknown => { any = true; self.t.incomplete += 1; *self.errors.entry("solver unknown on switch".into()).or_insert(0) += 1; }
                                }
                            }
                            if any { let g = groups[cur].1; self.add_pc(st, g); }
                        }
                        self.goto(st, groups[cur].0)?;
                    }
                }
            }
            I::Ret(v) => {
                let val = v.as_ref().map(|(_, o)| self.opd(st, o));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.set(a, None); }
                if st.frames.is_empty() { st.frames.push(Frame { f: fr.f, b: fr.b, ip: fr.ip, regs: vec![], allocas: vec![], dst: None, inv: None }); return Err(Stop::End(End::Done)); }
                if let (Some(d), Some(v)) = (fr.dst, val) { self.set(st, d, v); }
                if let Some(b) = fr.inv { self.goto(st, b)?; }
            }
            I::Unreachable => return Err(Stop::End(End::Viol("ub".into(), 10, "unreachable executed".into()))),
            I::ExtractV(d, a, ix) => { let mut v = self.opd(st, a); for i in ix { let Val::A(x) = &v else { return err("extractvalue") }; let n = x[*i as usize].clone(); v = n; } self.set(st, *d, v); }
            I::InsertV(d, t, a, v, ix) => { let mut av = self.opd(st, a); if let Val::C(_) = av { av = Module::zero(t); } let v = self.opd(st, v); fn ins(a: &mut Val, ix: &[u32], v: Val) { let Val::A(x) = a else { return }; let x = Rc::make_mut(x); if ix.len() == 1 { x[ix[0] as usize] = v } else { ins(&mut x[ix[0] as usize], &ix[1..], v) } } ins(&mut av, ix, v); self.set(st, *d, av); }
            I::ExtractE(d, _t, a, i) => { let a = self.opd(st, a); let iv = self.opd(st, i); let i = self.conc(st, &iv, 64)?; let Val::A(x) = a else { return err("extractelement") }; let v = x[i as usize].clone(); self.set(st, *d, v); }
            I::InsertE(d, _t, a, v, i) => { let a = self.opd(st, a); let v = self.opd(st, v); let iv = self.opd(st, i); let i = self.conc(st, &iv, 64)?; let Val::A(mut x) = a else { return err("insertelement") }; Rc::make_mut(&mut x)[i as usize] = v; self.set(st, *d, Val::A(x)); }
            I::Shuffle(d, _t, a, b, mk) => { let (Val::A(x), Val::A(y)) = (self.opd(st, a), self.opd(st, b)) else { return err("shuffle") }; let n = x.len(); let v = mk.iter().map(|&k| { let k = k.max(0) as usize; if k < n { x[k].clone() } else { y[k - n].clone() } }).collect(); self.set(st, *d, Val::A(Rc::new(v))); }
            I::Rmw(op, d, t, p, v) => {
                let (p, v) = (self.opd(st, p), self.opd(st, v));
                let a = self.conc(st, &p, 64)?;
                let old = self.load_ty(st, a, t)?;
                let w = t.bits();
                let nv = match op.as_str() { "xchg" => v, "add" => self.bin(Op::Add, t, &old, &v)?, "sub" => self.bin(Op::Sub, t, &old, &v)?, "and" => self.bin(Op::And, t, &old, &v)?, "or" => self.bin(Op::Or, t, &old, &v)?, "xor" => self.bin(Op::Xor, t, &old, &v)?, "umax" => vt(ite(bin(Op::Ult, tid(&old, w), tid(&v, w)), tid(&v, w), tid(&old, w))), _ => return err(format!("atomicrmw {}", op)) };
                self.store_ty(st, a, t, &nv)?;
                self.set(st, *d, old);
            }
            I::CmpXchg(d, t, p, x, y) => {
                let (p, x, y) = (self.opd(st, p), self.opd(st, x), self.opd(st, y));
                let a = self.conc(st, &p, 64)?;
                let old = self.load_ty(st, a, t)?;
                let e = self.icmp(Pred::Eq, t, &old, &x)?;
                let nv = match c(&e) { Some(1) => y, Some(_) => old.clone(), None => self.select(tid(&e, 1), t, &y, &old) };
                self.store_ty(st, a, t, &nv)?;
                self.set(st, *d, Val::A(Rc::new(vec![old, e])));
            }
            I::Move(d, a) => { let v = self.opd(st, a); self.set(st, *d, v); }
            I::Nop => {}
            I::Bad(s) => return err(format!("unsupported instruction: {}", s.chars().take(160).collect::<String>())),
            I::Call(d, rt, cal, args, inv) => {
                let f = match cal {
                    Callee::F(f) => *f,
                    Callee::Ind(o) => { let v = self.opd(st, o); let a = self.conc(st, &v, 64)?; let (id, off) = self.obj_of(a); if id >= self.nf || off != 0 { return Err(Stop::End(End::Viol("ub".into(), 11, format!("call of invalid pointer {:#x}", a)))); } id as u32 }
                    Callee::Asm(s) => { if s.is_empty() || s.trim().is_empty() { return self.ret_builtin(st, *d, Val::C(0), *inv); } if s.contains("cpuid") { return self.ret_builtin(st, *d, Module::zero(rt), *inv); } return err(format!("inline asm {}", s)) }
                };
                let bi = self.bi[f as usize];
                if bi == Bi::None || (bi == Bi::FmtWrite && st.fmt_on) {
                    let fu = unsafe { &*(&self.m.funcs[f as usize] as *const Func) };
                    if !fu.defined { return err(format!("external {}", fu.name)); }
                    if st.frames.len() > 3000 { return Err(Stop::End(End::Viol("stack".into(), 0, "call depth 3000".into()))); }
                    let mut regs = vec![Val::C(0); fu.nregs as usize];
                    for (i, (_, o)) in args.iter().enumerate() { if i < fu.params.len() { regs[fu.params[i] as usize] = self.opd(st, o); } }
                    self.funcs.insert(f);
                    st.frames.push(Frame { f, b: 0, ip: 0, regs, allocas: vec![], dst: *d, inv: *inv });
                } else {
                    let av: Vec<Val> = args.iter().map(|(_, o)| self.opd(st, o)).collect();
                    let r = self.builtin(st, bi, f, &av, args, rt)?;
                    return self.ret_builtin(st, *d, r, *inv);
                }
            }
        }
        Ok(())
    }
    fn ret_builtin(&mut self, st: &mut State, d: Option<u32>, v: Val, inv: Option<u32>) -> R<()> { if let Some(d) = d { self.set(st, d, v); } if let Some(b) = inv { self.goto(st, b)?; } Ok(()) }

    fn uf(&mut self, f: u32, a: Tid, b: Tid, w: u32) -> Val {
        let k = (f, a, b);
        if let Some(t) = self.ufs.get(&k) { return Val::S(*t); }
        let n = new_var(w);
        let v = var(n, w);
        self.ufs.insert(k, v);
        self.solver.ufapp.insert(n, k);
        Val::S(v)
    }
    /// The value of an application of a mathematical function to concrete arguments.
    fn native(&self, f: u32, a: u128, b: u128) -> Option<u128> {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        let r = if f == 7777 { x.powi(b as u32 as i32) } else { match mathname(&self.m.funcs[f as usize].name)? { (n, 1) => math1(n, x), (n, _) => math2(n, x, y) } };
        Some(r.to_bits() as u128)
    }
    /// Domains and ranges of the mathematical functions.
    fn axioms(n: &str, x: Tid, y: Tid) -> Vec<Tid> {
        let k = |v: f64| cst(64, v.to_bits() as u128);
        let nan = |t: Tid| not(bin(Op::FEq, t, t));
        let ax = bin(Op::And, x, cst(64, mask(63)));
        let bad = match n {
            "asin" | "acos" | "atanh" => bin(Op::FLt, k(1.0), ax),
            "log" | "log10" | "log2" => bin(Op::FLt, x, k(0.0)),
            "sin" | "cos" | "tan" => eq(ax, k(f64::INFINITY)),
            "acosh" => bin(Op::FLt, x, k(1.0)),
            "atan" | "sinh" | "cosh" | "tanh" | "asinh" | "exp" | "exp2" | "cbrt" => ff(),
            _ => return vec![],
        };
        let mut r = vec![eq(nan(y), or(nan(x), bad))];
        let (lo, hi) = match n { "sin" | "cos" | "tanh" => (-1.0, 1.0), "asin" | "atan" => (-1.5707963267948966, 1.5707963267948966), "acos" => (0.0, std::f64::consts::PI), "exp" | "exp2" | "acosh" => (0.0, f64::INFINITY), "cosh" => (1.0, f64::INFINITY), _ => return r };
        r.push(or(nan(y), and(bin(Op::FLe, k(lo), y), bin(Op::FLe, y, k(hi)))));
        r
    }
    /// A model of `pc /\ cond` in which the uninterpreted functions have their real values, found by
    /// adding the values at the points of each candidate model.  Ok(None): there is none.
    fn refine(&mut self, st: &State, cond: Tid) -> Result<Option<Rc<Model>>, bool> {
        let mut q: Vec<Tid> = st.pc.iter().cloned().collect();
        q.push(cond);
        let all = |q: &[Tid]| { let mut v: Vec<u32> = vec![]; for &t in q { v.extend(vars_of(t).iter()); } v.sort_unstable(); v.dedup(); v };
        if !all(&q).iter().any(|v| self.solver.ufapp.contains_key(v)) { return Err(false); }
        for v in all(&q) { if let Some(&(f, a, _)) = self.solver.ufapp.get(&v) { if f != 7777 && var_width(v) == 64 && self.axioms.insert(v) {
            if let Some((n, 1)) = mathname(&self.m.funcs[f as usize].name) { for t in Self::axioms(n, a, var(v, 64)) { self.solver.lemma(v, t); } }
        } } }
        // ordinary inputs first
        let mut nice = q.clone();
        for &v in &st.inputs { if var_width(v) == 64 && !st.fixed.contains_key(&v) {
            let mut any = ff();
            for k in [0.5f64, 0.25, 0.75, 1.0, 2.0, 3.0, 7.5, 30.0, -0.5, -2.0, -30.0] { any = or(any, eq(var(v, 64), cst(64, k.to_bits() as u128))); }
            for k in [2i64, 3, 30, -2] { any = or(any, eq(var(v, 64), cst(64, k as u64 as u128))); }
            nice.push(any);
        } }
        let (base, t0) = (q.len(), std::time::Instant::now());
        for (qs, last) in [(nice, false), (q, true)] {
            let mut pinned: Vec<Tid> = vec![];
            let mut rounds = 0;
            loop {
                rounds += 1;
                if rounds > 30 || t0.elapsed().as_secs() > 40 || std::time::Instant::now() > self.o.deadline { if last { return Err(true); } break; }
                let all_q: Vec<Tid> = if pinned.is_empty() { qs.clone() } else { qs[..base].iter().chain(pinned.iter()).cloned().collect() };
                let whole = all_q.iter().fold(tt(), |x, &t| and(x, t));
                let rr = self.solver.check(&[], whole, &st.model);
                match rr {
                    Res::Unsat | Res::Unknown if !pinned.is_empty() => pinned.clear(),
                    Res::Unsat => { if last { return Ok(None); } break; }
                    Res::Unknown => { if last { return Err(true); } break; }
                    Res::Sat(m) => {
                        let mut ok = all_q.iter().all(|&t| m.eval(t) == 1);
                        for v in all(&all_q) {
                            let Some(&(f, a, b)) = self.solver.ufapp.get(&v) else { continue };
                            let (ca, cb) = (m.eval(a), if b == 0 { 0 } else { m.eval(b) });
                            let Some(r) = self.native(f, ca, cb) else { continue };
                            let w = var_width(v);
                            let isnan = |k: u128| w == 64 && f64::from_bits(k as u64).is_nan();
                            let got = m.eval(var(v, w));
                            if got == r || isnan(r) && isnan(got) { continue; }
                            ok = false;
                            let mut at = eq(a, cst(width(a), ca));
                            if b != 0 { at = and(at, eq(b, cst(width(b), cb))); }
                            self.solver.lemma(v, not(and(at, not(eq(var(v, w), cst(w, r))))));
                        }
                        if ok { return Ok(Some(m)); }
                        // the same inputs again, with the real values
                        if pinned.is_empty() { pinned = st.inputs.iter().map(|&v| eq(var(v, var_width(v)), cst(var_width(v), m.eval(var(v, var_width(v)))))).filter(|t| is_const(*t).is_none()).collect(); }
                    }
                }
            }
        }
        Err(true)
    }
    fn fresh(&mut self, st: &mut State, w: u32) -> Tid {
        let k = (st.inputs.len() as u32, w);
        let v = match self.vmap.get(&k) { Some(v) => *v, None => { let v = new_var(w); self.vmap.insert(k, v); v } };
        st.inputs.push(v);
        var(v, w)
    }
    fn panic_loc(&self, st: &State, args: &[Val]) -> String {
        // the last argument is normally &'static Location { file: &str, line: u32, col: u32 }
        for a in args.iter().rev() {
            if let Some(p) = c(a) {
                let (id, off) = self.obj_of(p);
                if id < self.nf { continue; }
                if let Some(o) = st.mem.get(id) {
                    if o.ro && o.data.len() as u64 >= off + 24 {
                        let g = |i: usize, n: usize| -> u128 { c(&Self::obj_bits(o, off as usize + i, n)).unwrap_or(0) };
                        let (fp, fl, line, col) = (g(0, 8), g(8, 8), g(16, 4), g(20, 4));
                        let (fid, fo) = self.obj_of(fp);
                        if let Some(fo_) = st.mem.get(fid) { if fl < 300 && fo as usize + fl as usize <= fo_.data.len() && line < 1_000_000 { if let Ok(s) = std::str::from_utf8(&fo_.data[fo as usize..fo as usize + fl as usize]) { if s.contains(".rs") { return format!("{}:{}:{}", s, line, col); } } } }
                    }
                }
            }
        }
        "unknown location".into()
    }
    fn panic_msg(&self, st: &State, name: &str, args: &[Val]) -> String {
        // core::panicking::panic(msg: &str, loc)
        if args.len() >= 3 { if let (Some(p), Some(n)) = (c(&args[0]), c(&args[1])) { let (id, off) = self.obj_of(p); if n > 0 && n < 200 { if let Some(o) = st.mem.get(id) { if (off + n as u64) as usize <= o.data.len() { if let Ok(s) = std::str::from_utf8(&o.data[off as usize..off as usize + n as usize]) { return s.chars().map(|c| if c.is_control() { ' ' } else { c }).collect(); } } } } } }
        name.rsplit("::").next().unwrap_or(name).to_string()
    }

    fn builtin(&mut self, st: &mut State, bi: Bi, f: u32, a: &[Val], args: &[(Tr, Opd)], rt: &Ty) -> R<Val> {
        let name = unsafe { &*(self.m.funcs[f as usize].name.as_str() as *const str) };
        Ok(match bi {
            Bi::SymBits => { let w = c(&a[0]).unwrap_or(64) as u32; let t = self.fresh(st, w); vt(zext(t, 64)) }
            Bi::SymChoice => {
                let n = self.conc(st, &a[0], 64)? as u64;
                let w = 32; let t = self.fresh(st, w);
                let v = match node(t).op { Op::Var => node(t).k as u32, _ => unreachable!() };
                for i in (1..n).rev() {
                    let mut o = st.clone(); o.forks += 1; self.t.forks += 1;
                    let e = eq(t, cst(w, i as u128));
                    self.add_pc(&mut o, e);
                    let mut vals = o.model.vals.clone(); vals.insert(v, i as u128); o.model = Rc::new(Model::new(vals));
                    // resume after the call with value i
                    let fr = o.frames.last().unwrap();
                    let ins = unsafe { &*(&self.m.funcs[fr.f as usize].blocks[fr.b as usize].ins[fr.ip as usize - 1] as *const I) };
                    if let I::Call(d, _, _, _, inv) = ins { let (d, inv) = (*d, *inv); self.ret_builtin(&mut o, d, Val::C(i as u128), inv)?; }
                    self.queue.push_back(o);
                }
                let e = eq(t, cst(w, 0)); self.add_pc(st, e);
                let mut vals = st.model.vals.clone(); vals.insert(v, 0); st.model = Rc::new(Model::new(vals));
                Val::C(0)
            }
            Bi::Assume => {
                let t = tid(&a[0], 1);
                match is_const(t) { Some(1) => return Ok(Val::C(0)), Some(_) => return Err(Stop::End(End::Killed)), None => {} }
                if st.unsure {
                    match self.solver.check(&st.pc, t, &st.model) { Res::Unsat => return Err(Stop::End(End::Killed)), Res::Sat(m) => if m.eval(t) == 1 && st.pc.iter().all(|&t| m.eval(t) == 1) { st.model = m; st.unsure = false; }, _ => {} }
                }
                else if st.model.eval(t) == 0 {
                    match self.solver.check(&st.pc, t, &st.model) { Res::Sat(m) => st.model = m, Res::Unsat => return Err(Stop::End(End::Killed)), Res::Unknown => { self.t.incomplete += 1; *self.errors.entry("solver unknown on assume".into()).or_insert(0) += 1; return Err(Stop::End(End::Killed)) } }
                }
                self.add_pc(st, t);
                Val::C(0)
            }
            Bi::Assert => {
                let t = tid(&a[0], 1); let id = c(&a[1]).unwrap_or(0) as u64;
                self.t.asserts += 1;
                match is_const(t) {
                    Some(1) => { self.t.asserts_const += 1; }
                    Some(_) => return Err(Stop::End(End::Viol("assert".into(), id, String::new()))),
                    None if st.unsure => {
                        self.solver.quick = true;
                        let r = self.solver.check(&st.pc, not(t), &st.model);
                        self.solver.quick = false;
                        if !matches!(r, Res::Unsat) {
                            match self.model_of(st, not(t)) {
                                Ok(None) => {}
                                Ok(Some(m)) => { st.model = m; st.unsure = false; return Err(Stop::End(End::Viol("assert".into(), id, String::new()))); }
                                Err(()) => { self.t.incomplete += 1; *self.errors.entry(format!("assertion {} not decided", id)).or_insert(0) += 1; }
                            }
                        }
                        self.add_pc(st, t);
                    }
                    None => {
                        let r = if st.model.eval(t) == 0 { Res::Sat(st.model.clone()) } else { self.solver.check(&st.pc, not(t), &st.model) };
                        let r = match r { Res::Sat(m) => match self.refine(st, not(t)) { Ok(None) => { st.model = match self.solver.check(&st.pc, t, &st.model) { Res::Sat(m) => m, _ => return Err(Stop::End(End::Killed)) }; Res::Unsat } Ok(Some(m)) => Res::Sat(m), Err(false) => Res::Sat(m), Err(true) => Res::Unknown }, r => r };
                        let r = match r { Res::Unknown => match self.guess(st, not(t)) { Some(m) => Res::Sat(m), None => Res::Unknown }, r => r };
                        match r {
                            Res::Unsat => {}
                            Res::Sat(m) => { st.model = m; return Err(Stop::End(End::Viol("assert".into(), id, String::new()))); }
                            Res::Unknown => {
                                self.t.incomplete += 1; *self.errors.entry(format!("assertion {} not decided", id)).or_insert(0) += 1;
                                if st.model.eval(t) == 0 { match self.solver.check(&st.pc, t, &st.model) { Res::Sat(m) => st.model = m, _ => return Err(Stop::End(End::Killed)) } }
                            }
                        }
                        self.add_pc(st, t);
                    }
                }
                Val::C(0)
            }
            Bi::Finding => { // (cond, id): records that a listed finding is (still) observable; the path ends there
                let t = tid(&a[0], 1); let id = c(&a[1]).unwrap_or(0) as u64;
                let k = match is_const(t) { Some(k) => k == 1, None => { let (side, other) = self.branch(st, t)?; if let Some(mut o) = other { let fr = o.frames.last_mut().unwrap(); fr.ip -= 1; self.queue.push_back(o); } side } };
                if k { let inputs = st.inputs.iter().map(|v| st.model.eval(var(*v, var_width(*v)))).collect(); self.findings.entry(id).or_insert(Violation { kind: "finding".into(), id, loc: String::new(), inputs, stack: vec![] }); return Err(Stop::End(End::Done)); }
                Val::C(0)
            }
            Bi::Cover => { *self.covers.entry(c(&a[0]).unwrap_or(0) as u64).or_insert(0) += 1; Val::C(0) }
            Bi::Obs => { st.obs.push(a[0].clone()); Val::C(0) }
            Bi::PanicOk => { st.panic_ok = c(&a[0]) == Some(1); Val::C(0) }
            Bi::Fmt => { st.fmt_on = c(&a[0]) == Some(1); Val::C(0) }
            Bi::Concretize => { let k = self.conc(st, &a[0], 64)?; Val::C(k) }
            Bi::Unreach => return Err(Stop::End(End::Killed)),
            Bi::Alloc | Bi::AllocZ | Bi::Malloc => { let n = self.conc(st, &a[0], 64)?; if n > 1 << 26 { return Err(Stop::End(End::Viol("alloc".into(), 0, format!("allocation of {} bytes", n)))); } let id = st.mem.alloc(n as u64); Val::C(addr_of_obj(id)) }
            Bi::Calloc => { let n = self.conc(st, &a[0], 64)? * self.conc(st, &a[1], 64)?; let id = st.mem.alloc(n as u64); Val::C(addr_of_obj(id)) }
            Bi::Dealloc | Bi::Free => { let p = self.conc(st, &a[0], 64)?; if p != 0 { let (id, off) = self.obj_of(p); if st.mem.get(id).is_none() || off != 0 { return Err(Stop::End(End::Viol("ub".into(), 12, "invalid free".into()))); } st.mem.set(id, None); } Val::C(0) }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.conc(st, &a[0], 64)?;
                let n = self.conc(st, if bi == Bi::Realloc { &a[3] } else { &a[1] }, 64)?;
                if n > 1 << 26 { return Err(Stop::End(End::Viol("alloc".into(), 0, format!("allocation of {} bytes", n)))); }
                let (id, _) = self.obj_of(p);
                let Some(o) = st.mem.get(id).cloned() else { return Err(Stop::End(End::Viol("ub".into(), 13, "invalid realloc".into()))) };
                let nid = st.mem.alloc(n as u64);
                let l = (o.data.len() as u64).min(n as u64);
                self.copy(st, addr_of_obj(nid), p, l)?;
                st.mem.set(id, None);
                Val::C(addr_of_obj(nid))
            }
            Bi::PosixMemalign => { let p = self.conc(st, &a[0], 64)?; let n = self.conc(st, &a[2], 64)?; let id = st.mem.alloc(n as u64); self.store_bits(st, p, 8, &Val::C(addr_of_obj(id)))?; Val::C(0) }
            Bi::NoShim | Bi::Nop => Val::C(0),
            Bi::Memcpy => { let n = self.conc(st, &a[2], 64)?; if n == 0 { return Ok(a[0].clone()); } let d = self.conc(st, &a[0], 64)?; let s = self.conc(st, &a[1], 64)?; self.copy(st, d, s, n as u64)?; a[0].clone() }
            Bi::Memset => {
                let n = self.conc(st, &a[2], 64)?; if n == 0 { return Ok(a[0].clone()); }
                let d = self.conc(st, &a[0], 64)?;
                let v = match &a[1] { Val::C(k) => Val::C(k & 0xff), Val::S(t) => vt(extract(*t, 0, 8)), _ => return err("memset") };
                for i in 0..n { self.store_bits(st, d + i, 1, &v)?; }
                a[0].clone()
            }
            Bi::Bcmp => {
                let n = self.conc(st, &a[2], 64)?; if n == 0 { return Ok(Val::C(0)); }
                let (p, q) = (self.conc(st, &a[0], 64)?, self.conc(st, &a[1], 64)?);
                let mut r = cst(32, 0);
                for i in (0..n).rev() {
                    let (x, y) = (self.load_bits(st, p + i, 1)?, self.load_bits(st, q + i, 1)?);
                    if let (Val::C(x), Val::C(y)) = (&x, &y) { if x != y { r = cst(32, if x < y { 0xffff_ffff } else { 1 }); } continue; }
                    let (x, y) = (tid(&x, 8), tid(&y, 8));
                    r = ite(eq(x, y), r, if name == "bcmp" { cst(32, 1) } else { ite(bin(Op::Ult, x, y), cst(32, 0xffff_ffff), cst(32, 1)) });
                }
                vt(r)
            }
            Bi::Strlen => { let p = self.conc(st, &a[0], 64)?; let mut n = 0u128; loop { let v = self.load_bits(st, p + n, 1)?; match c(&v) { Some(0) => break, Some(_) => n += 1, None => return err("symbolic strlen") } } Val::C(n) }
            Bi::Panic => { let loc = self.panic_loc(st, a); let msg = self.panic_msg(st, &self.m.funcs[f as usize].pretty.clone(), a); return Err(Stop::End(End::Panic(format!("{} ({})", loc, msg)))); }
            Bi::Abort => return Err(Stop::End(End::Panic("abort".into()))),
            Bi::FmtWrite => Val::C(0),
            Bi::Getrandom => { let p = self.conc(st, &a[0], 64)?; let n = self.conc(st, &a[1], 64)?; for i in 0..n { self.store_bits(st, p + i, 1, &Val::C(0x5a))?; } Val::C(n) }
            Bi::Syscall => { if c(&a[0]) == Some(318) { let p = self.conc(st, &a[1], 64)?; let n = self.conc(st, &a[2], 64)?; if p != 0 && p > 0xffff_ffff { for i in 0..n { self.store_bits(st, p + i, 1, &Val::C(0x5a))?; } } Val::C(n) } else { return err("syscall") } }
            Bi::Zero => Val::C(0),
            Bi::Math1 => { let nm = mathname(name).unwrap().0; match c(&a[0]) { Some(x) => Val::C(math1(nm, f64::from_bits(x as u64)).to_bits() as u128), None => self.uf(f, tid(&a[0], 64), 0, 64) } }
            Bi::Math2 => { let nm = mathname(name).unwrap().0; match (c(&a[0]), c(&a[1])) { (Some(x), Some(y)) => Val::C(math2(nm, f64::from_bits(x as u64), f64::from_bits(y as u64)).to_bits() as u128), _ => self.uf(f, tid(&a[0], 64), tid(&a[1], 64), 64) } }
            Bi::RandomKeys => Val::A(Rc::new(vec![Val::C(0x0706050403020100), Val::C(0x0f0e0d0c0b0a0908)])),
            Bi::Unknown => return err(format!("external function {}", name)),
            Bi::Intr => return self.intrinsic(st, name, a, args, rt),
            Bi::None => unreachable!(),
        })
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, a: &[Val], args: &[(Tr, Opd)], rt: &Ty) -> R<Val> {
        let n = name.strip_prefix("llvm.").unwrap();
        // element-wise over vectors
        if let (Ty::Vec(cnt, e), true) = (rt, a.iter().any(|v| matches!(v, Val::A(_)))) {
            if !n.starts_with("vector.") {
                let mut out = vec![];
                let sargs: Vec<(Tr, Opd)> = args.iter().map(|(t, o)| (if let Ty::Vec(..) = **t { t.elem(0) } else { t.clone() }, o.clone())).collect();
                for i in 0..*cnt as usize { let ai: Vec<Val> = a.iter().map(|v| if let Val::A(x) = v { x[i].clone() } else { v.clone() }).collect(); out.push(self.intrinsic(st, name, &ai, &sargs, e)?); }
                return Ok(Val::A(Rc::new(out)));
            }
        }
        let w = if args.is_empty() { 0 } else { args[0].0.bits() };
        let t = |i: usize| tid(&a[i], w);
        if w > 128 { return err("intrinsic width"); }
        Ok(if n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("ptrmask") && false { a[0].clone() }
        else if n.contains(".with.overflow") {
            let (x, y) = (t(0), t(1));
            let (r, o) = if n.starts_with("uadd") { let r = bin(Op::Add, x, y); (r, bin(Op::Ult, r, x)) }
                else if n.starts_with("usub") { (bin(Op::Sub, x, y), bin(Op::Ult, x, y)) }
                else if n.starts_with("sadd") { if w < 128 { let s = bin(Op::Add, sext(x, w + 1), sext(y, w + 1)); let r = bin(Op::Add, x, y); (r, not(eq(s, sext(r, w + 1)))) } else { let r = bin(Op::Add, x, y); let z = cst(w, 0); let (nx, ny, nr) = (bin(Op::Slt, x, z), bin(Op::Slt, y, z), bin(Op::Slt, r, z)); (r, and(eq(nx, ny), not(eq(nx, nr)))) } }
                else if n.starts_with("ssub") { if w < 128 { let s = bin(Op::Sub, sext(x, w + 1), sext(y, w + 1)); let r = bin(Op::Sub, x, y); (r, not(eq(s, sext(r, w + 1)))) } else { let r = bin(Op::Sub, x, y); let z = cst(w, 0); let (nx, ny, nr) = (bin(Op::Slt, x, z), bin(Op::Slt, y, z), bin(Op::Slt, r, z)); (r, and(not(eq(nx, ny)), not(eq(nx, nr)))) } }
                else if n.starts_with("umul") { (bin(Op::Mul, x, y), if w < 64 { not(eq(extract(bin(Op::Mul, zext(x, 2 * w), zext(y, 2 * w)), w, w), cst(w, 0))) } else { bin(Op::UMulO, x, y) }) }
                else { (bin(Op::Mul, x, y), if w <= 32 { let p = bin(Op::Mul, sext(x, 2 * w), sext(y, 2 * w)); not(eq(p, sext(extract(p, 0, w), 2 * w))) } else { bin(Op::SMulO, x, y) }) };
            Val::A(Rc::new(vec![vt(r), vt(o)]))
        }
        else if n.starts_with("umax") { vt(ite(bin(Op::Ult, t(0), t(1)), t(1), t(0))) }
        else if n.starts_with("umin") { vt(ite(bin(Op::Ult, t(0), t(1)), t(0), t(1))) }
        else if n.starts_with("smax") { vt(ite(bin(Op::Slt, t(0), t(1)), t(1), t(0))) }
        else if n.starts_with("smin") { vt(ite(bin(Op::Slt, t(0), t(1)), t(0), t(1))) }
        else if n.starts_with("abs.") { let x = t(0); vt(ite(bin(Op::Slt, x, cst(w, 0)), bin(Op::Sub, cst(w, 0), x), x)) }
        else if n.starts_with("usub.sat") { vt(ite(bin(Op::Ult, t(0), t(1)), cst(w, 0), bin(Op::Sub, t(0), t(1)))) }
        else if n.starts_with("uadd.sat") { let r = bin(Op::Add, t(0), t(1)); vt(ite(bin(Op::Ult, r, t(0)), cst(w, mask(w)), r)) }
        else if n.starts_with("ucmp") || n.starts_with("scmp") { let (lt, gt) = if n.starts_with("u") { (bin(Op::Ult, t(0), t(1)), bin(Op::Ult, t(1), t(0))) } else { (bin(Op::Slt, t(0), t(1)), bin(Op::Slt, t(1), t(0))) }; let rw = rt.bits(); vt(ite(lt, cst(rw, mask(rw)), ite(gt, cst(rw, 1), cst(rw, 0)))) }
        else if n.starts_with("fshl") || n.starts_with("fshr") {
            let (x, y, s) = (t(0), t(1), t(2));
            let Some(k) = is_const(s) else { let k = self.conc(st, &Val::S(s), w)?; let k = (k % w as u128) as u32; return Ok(self.fsh(n.starts_with("fshl"), x, y, k, w)); };
            self.fsh(n.starts_with("fshl"), x, y, (k % w as u128) as u32, w)
        }
        else if n.starts_with("ctlz") { match c(&a[0]) { Some(k) => Val::C((k.leading_zeros() - (128 - w)) as u128), None => { let x = t(0); let mut r = cst(w, w as u128); for i in 0..w { r = ite(eq(extract(x, i, 1), tt()), cst(w, (w - 1 - i) as u128), r); } vt(r) } } }
        else if n.starts_with("cttz") { match c(&a[0]) { Some(k) => Val::C(if k == 0 { w as u128 } else { k.trailing_zeros() as u128 }), None => { let x = t(0); let mut r = cst(w, w as u128); for i in (0..w).rev() { r = ite(eq(extract(x, i, 1), tt()), cst(w, i as u128), r); } vt(r) } } }
        else if n.starts_with("ctpop") { match c(&a[0]) { Some(k) => Val::C(k.count_ones() as u128), None => { let x = t(0); let mut r = cst(w, 0); for i in 0..w { let b = extract(x, i, 1); r = bin(Op::Add, r, if w == 1 { b } else { zext(b, w) }); } vt(r) } } }
        else if n.starts_with("bswap") { let x = t(0); let k = w / 8; let mut r = extract(x, 0, 8); for i in 1..k { r = concat(r, extract(x, i * 8, 8)); } vt(r) }
        else if n.starts_with("bitreverse") { let x = t(0); let mut r = extract(x, 0, 1); for i in 1..w { r = concat(r, extract(x, i, 1)); } vt(r) }
        else if n.starts_with("fabs") { vt(bin(Op::And, t(0), cst(w, mask(w - 1)))) }
        else if n.starts_with("is.fpclass") {
            let Some(k) = c(&a[1]) else { return err("symbolic is.fpclass mask") };
            let (eb, mb) = if w == 64 { (11u32, 52u32) } else if w == 32 { (8, 23) } else { return err("is.fpclass width") };
            let x = t(0);
            let (ex, ma, sg) = (extract(x, mb, eb), extract(x, 0, mb), eq(extract(x, w - 1, 1), tt()));
            let (e0, e1, m0) = (eq(ex, cst(eb, 0)), eq(ex, cst(eb, mask(eb))), eq(ma, cst(mb, 0)));
            let (quiet, norm) = (eq(extract(x, mb - 1, 1), tt()), and(not(e0), not(e1)));
            let nan = and(e1, not(m0));
            let (inf, sub, zero) = (and(e1, m0), and(e0, not(m0)), and(e0, m0));
            let mut r = cst(1, 0);
            for (i, cl) in [and(nan, not(quiet)), and(nan, quiet), and(sg, inf), and(sg, norm), and(sg, sub), and(sg, zero), and(not(sg), zero), and(not(sg), sub), and(not(sg), norm), and(not(sg), inf)].into_iter().enumerate() {
                if k >> i & 1 == 1 { r = not(and(not(r), not(cl))); }
            }
            vt(r)
        }
        else if n.starts_with("copysign") { vt(bin(Op::Or, bin(Op::And, t(0), cst(w, mask(w - 1))), bin(Op::And, t(1), cst(w, 1u128 << (w - 1))))) }
        else if n.starts_with("sqrt") { vt(un(Op::FSqrt, t(0), w)) }
        else if n.starts_with("floor") { vt(un(Op::FRoundDown, t(0), w)) }
        else if n.starts_with("ceil") { vt(un(Op::FRoundUp, t(0), w)) }
        else if n.starts_with("trunc") { vt(un(Op::FRoundZero, t(0), w)) }
        else if n.starts_with("roundeven") || n.starts_with("rint") || n.starts_with("nearbyint") { vt(un(Op::FRoundRne, t(0), w)) }
        else if n.starts_with("round") { vt(un(Op::FRoundRna, t(0), w)) }
        else if n.starts_with("minnum") || n.starts_with("maxnum") || n.starts_with("minimumnum") || n.starts_with("maximumnum") { let (x, y) = (t(0), t(1)); let nx = not(bin(Op::FEq, x, x)); let ny = not(bin(Op::FEq, y, y)); let pick = if n.starts_with("min") { bin(Op::FLt, x, y) } else { bin(Op::FLt, y, x) }; vt(ite(nx, y, ite(ny, x, ite(pick, x, y)))) }
        else if n.starts_with("powi") { match (c(&a[0]), c(&a[1])) { (Some(x), Some(y)) => Val::C(f64::from_bits(x as u64).powi(y as u32 as i32).to_bits() as u128), _ => self.uf(7777, t(0), tid(&a[1], 32), 64) } }
        else if n.starts_with("fmuladd") || n.starts_with("fma") { match (c(&a[0]), c(&a[1]), c(&a[2])) { (Some(x), Some(y), Some(z)) => Val::C(f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128), _ => return err("symbolic fma") } }
        else if n.starts_with("fptosi.sat") || n.starts_with("fptoui.sat") {
            let rw = rt.bits(); let sg = n.starts_with("fptosi");
            match c(&a[0]) {
                Some(k) => Val::C(fold(if sg { Op::FToSI } else { Op::FToUI }, rw, w, k, 0, 0, 0, 0)),
                None => {
                    let x = t(0);
                    let (lo, hi) = if sg { (-(2f64.powi(rw as i32 - 1)), 2f64.powi(rw as i32 - 1)) } else { (0.0, 2f64.powi(rw as i32)) };
                    let cf = |v: f64| if w == 64 { cst(64, v.to_bits() as u128) } else { cst(32, (v as f32).to_bits() as u128) };
                    let (mn, mx) = if sg { (1u128 << (rw - 1), mask(rw) >> 1) } else { (0, mask(rw)) };
                    let inr = un(if sg { Op::FToSI } else { Op::FToUI }, x, rw);
                    vt(ite(not(bin(Op::FEq, x, x)), cst(rw, 0), ite(bin(Op::FLt, x, cf(lo)), cst(rw, mn), ite(bin(Op::FLe, cf(hi), x), cst(rw, mx), inr))))
                }
            }
        }
        else if n.starts_with("is.constant") { Val::C(0) }
        else if n.starts_with("expect") { a[0].clone() }
        else if n.starts_with("x86.xgetbv") { Val::C(0) }
        else if n.starts_with("vector.reduce.") {
            let Val::A(vs) = &a[0] else { return err("reduce") };
            let e = args[0].0.elem(0); let ew = e.bits();
            let op = if n.contains("reduce.or") { Op::Or } else if n.contains("reduce.and") { Op::And } else if n.contains("reduce.add") { Op::Add } else if n.contains("reduce.xor") { Op::Xor } else { return err(name) };
            let mut r = tid(&vs[0], ew); for v in vs.iter().skip(1) { r = bin(op, r, tid(v, ew)); }
            vt(r)
        }
        else if n.starts_with("x86.sse2.pmovmskb") { let Val::A(vs) = &a[0] else { return err("pmovmskb") }; let mut r = cst(32, 0); for (i, v) in vs.iter().enumerate() { r = bin(Op::Or, r, bin(Op::Shl, zext(extract(tid(v, 8), 7, 1), 32), cst(32, i as u128))); } vt(r) }
        else { return err(format!("intrinsic {}", name)); })
    }
    fn fsh(&self, left: bool, x: Tid, y: Tid, k: u32, w: u32) -> Val {
        if k == 0 { return vt(if left { x } else { y }); }
        let k = if left { k } else { w - k };
        // concat(x,y) << k, take high half
        vt(concat(extract(x, 0, w - k), extract(y, w - k, k)))
    }
}

extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; }
