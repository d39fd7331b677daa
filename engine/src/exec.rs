//! Path-forking symbolic execution of the IR.
use crate::fp;
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: &'static Func,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub ret: u32,
    pub sp: u32,
}

#[derive(Clone)]
pub struct CGroup {
    vars: VarSet,
    cs: Vec<E>,
}

pub struct ObsNode {
    prev: Option<Arc<ObsNode>>,
    val: E,
}

/// Files seen by the code under test through the C library.
#[derive(Clone)]
pub struct File {
    name: Arc<Vec<E>>,
    data: Arc<Vec<E>>,
    dir: bool,
}
#[derive(Clone, Default)]
pub struct Os {
    files: Vec<File>,
    fds: Vec<Option<(usize, u64)>>, // file and position of descriptor 3 + index
    run: Option<Arc<Run>>,
}
/// A program run inside a harness: what its process leaves behind.
pub struct Run {
    depth: usize,
    mem: Mem,
}

#[derive(Clone)]
pub struct State {
    pub low: Vec<Arc<Frame>>,
    pub top: Frame,
    pub mem: Mem,
    groups: Vec<Arc<CGroup>>,
    known: VarSet,
    pub model: Box<[u8; NVARS]>,
    pub nvars: usize,
    pub obs: Option<Arc<ObsNode>>,
    pub out: [Option<Arc<ObsNode>>; 2],
    pub reach: [u64; 4],
    pub steps: u64,
    pub conc: u32,
    pub os: Os,
    pub limit: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Event {
    Ok,
    Exit(u64),
    Infeasible,
    Fail(u64),
    Panic(String),
    Ub(String),
    Alloc(u64),
    Hang,
    Depth,
    Unsupported(String),
}

pub enum Stop {
    End(Event),
}
type X<T> = Result<T, Stop>;

fn end<T>(e: Event) -> X<T> {
    Err(Stop::End(e))
}
fn unsup<T>(s: impl Into<String>) -> X<T> {
    end(Event::Unsupported(s.into()))
}
impl From<Fault> for Stop {
    fn from(f: Fault) -> Stop {
        Stop::End(Event::Ub(format!("memory error {:x?}", f)))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Bi {
    Body,
    Nop,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Strerror,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Umin,
    Umax,
    Smin,
    Smax,
    UaddOv,
    UsubOv,
    UmulOv,
    SaddOv,
    SsubOv,
    SmulOv,
    UaddSat,
    UsubSat,
    Float,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitreverse,
    Fshl,
    Fshr,
    Ucmp,
    Scmp,
    Abs,
    Expect,
    IsConst,
    TlsAddr,
    LoadRel,
    Trap,
    Panic,
    Exit,
    VpSym,
    VpByte,
    VpAssume,
    VpFail,
    VpObs,
    VpReach,
    VpFile,
    VpLimit,
    VpLive,
    VpPeak,
    VpIsSym,
    Open,
    Read,
    Write,
    Lseek,
    Fstat,
    Stat,
    Writev,
    Pread,
    Zero,
    VpOut,
    VpRun,
    VpInitArgs,
    Statx,
    Close,
    Getenv,
    Getrandom,
    Hash,
    Errno,
    Syscall,
    Unknown,
}

pub fn classify(d: &FuncDecl) -> Bi {
    let n: &str = &d.name;
    if n.contains("6random11RandomState") && n.contains("8hash_one") {
        return Bi::Hash;
    }
    if let Some(x) = n.strip_prefix("llvm.") {
        let st = |p: &str| x.starts_with(p);
        return if st("memcpy") || st("memmove") {
            Bi::Memcpy
        } else if st("memset") {
            Bi::Memset
        } else if st("lifetime") || st("assume") || st("experimental.noalias") || st("x86.sse2.pause") || st("dbg") || st("invariant") || st("prefetch") || st("donothing") || st("pseudoprobe") {
            Bi::Nop
        } else if st("umin") {
            Bi::Umin
        } else if st("umax") {
            Bi::Umax
        } else if st("smin") {
            Bi::Smin
        } else if st("smax") {
            Bi::Smax
        } else if st("uadd.with") {
            Bi::UaddOv
        } else if st("usub.with") {
            Bi::UsubOv
        } else if st("umul.with") {
            Bi::UmulOv
        } else if st("sadd.with") {
            Bi::SaddOv
        } else if st("ssub.with") {
            Bi::SsubOv
        } else if st("smul.with") {
            Bi::SmulOv
        } else if st("uadd.sat") {
            Bi::UaddSat
        } else if st("usub.sat") {
            Bi::UsubSat
        } else if st("fabs") || st("copysign") || st("is.fpclass") || st("fptosi.sat") || st("fptoui.sat") || st("sqrt") || st("floor") || st("ceil") || st("trunc.f") || st("rint") || st("nearbyint") || st("roundeven") || st("round.f") || st("minnum") || st("maxnum") || st("minimumnum") || st("maximumnum") {
            Bi::Float
        } else if st("ctlz") {
            Bi::Ctlz
        } else if st("cttz") {
            Bi::Cttz
        } else if st("ctpop") {
            Bi::Ctpop
        } else if st("bswap") {
            Bi::Bswap
        } else if st("bitreverse") {
            Bi::Bitreverse
        } else if st("fshl") {
            Bi::Fshl
        } else if st("fshr") {
            Bi::Fshr
        } else if st("ucmp") {
            Bi::Ucmp
        } else if st("scmp") {
            Bi::Scmp
        } else if st("abs") {
            Bi::Abs
        } else if st("expect") {
            Bi::Expect
        } else if st("is.constant") {
            Bi::IsConst
        } else if st("threadlocal") {
            Bi::TlsAddr
        } else if st("load.relative") {
            Bi::LoadRel
        } else if st("trap") || st("ubsantrap") {
            Bi::Trap
        } else {
            Bi::Unknown
        };
    }
    match n {
        "memcpy" | "memmove" => Bi::Memcpy,
        "memset" => Bi::Memset,
        "memcmp" => Bi::Memcmp,
        "bcmp" => Bi::Bcmp,
        "strlen" => Bi::Strlen,
        "__xpg_strerror_r" | "strerror_r" => Bi::Strerror,
        "malloc" => Bi::Malloc,
        "calloc" => Bi::Calloc,
        "realloc" => Bi::Realloc,
        "free" => Bi::Free,
        "posix_memalign" => Bi::PosixMemalign,
        "abort" => Bi::Panic,
        "exit" => Bi::Exit,
        "vp_sym" => Bi::VpSym,
        "vp_byte" => Bi::VpByte,
        "vp_assume" => Bi::VpAssume,
        "vp_fail" => Bi::VpFail,
        "vp_obs" => Bi::VpObs,
        "vp_reach" => Bi::VpReach,
        "vp_file" => Bi::VpFile,
        "vp_limit" => Bi::VpLimit,
        "vp_live" => Bi::VpLive,
        "vp_peak" => Bi::VpPeak,
        "vp_is_sym" => Bi::VpIsSym,
        "vp_out" => Bi::VpOut,
        "vp_run" => Bi::VpRun,
        "vp_init_args" => Bi::VpInitArgs,
        "writev" => Bi::Writev,
        "pread64" | "pread" => Bi::Pread,
        "stat64" | "stat" | "lstat64" | "lstat" => Bi::Stat,
        "signal" | "sigaction" | "sigaltstack" => Bi::Zero,
        "open64" | "open" | "openat64" | "openat" => Bi::Open,
        "read" => Bi::Read,
        "write" => Bi::Write,
        "lseek64" | "lseek" => Bi::Lseek,
        "fstat64" | "fstat" => Bi::Fstat,
        "statx" => Bi::Statx,
        "close" => Bi::Close,
        "getenv" => Bi::Getenv,
        "getrandom" => Bi::Getrandom,
        "__errno_location" => Bi::Errno,
        "syscall" => Bi::Syscall,
        _ => {
            if d.body.is_none() {
                return if d.noreturn { Bi::Panic } else { Bi::Unknown };
            }
            // functions of the standard library that never return are panics, apart from the way
            // out through exit()
            let own = n.contains("5vpcli") || n.contains("6parser") || n.contains("5whasm");
            if d.noreturn && !own && !n.contains("7process4exit") && !n.contains("3sys4exit4exit") && !n.contains("2os4exit") && !n.contains("vp_main") {
                return Bi::Panic;
            }
            Bi::Body
        }
    }
}

#[derive(Clone)]
pub struct Found {
    pub event: Event,
    pub model: Vec<u8>,
    pub obs: Vec<u128>,
    pub out: Vec<u8>,
    pub at: Vec<String>,
}

pub struct Job {
    pub entry: String,
    pub args: Vec<u64>,
}

pub struct Shared {
    pub m: Arc<Module>,
    pub g: Globals,
    pub bi: Vec<Bi>,
    pub stats: Arc<Stats>,
    pub cache: Arc<Cache>,
    pub queue: Mutex<Vec<State>>,
    pub cv: Condvar,
    pub busy: AtomicUsize,
    pub stop: AtomicBool,
    pub steps: AtomicU64,
    pub forks: AtomicU64,
    pub ends: Mutex<HashMap<String, u64>>,
    pub found: Mutex<Vec<Found>>,
    pub samples: Mutex<Vec<(u64, Found)>>,
    pub reach: [AtomicU64; 4],
    pub touched: Vec<AtomicBool>,
    pub deadline: Instant,
    pub timed_out: AtomicBool,
    pub seed: u64,
    pub nsamples: usize,
    pub max_found: usize,
    pub max_steps: u64,
    pub verbose: bool,
    pub timeout_ms: u32,
    pub maxlive: AtomicU64,
    pub prof: Option<Mutex<HashMap<String, u64>>>,
}

pub struct Worker<'a> {
    sh: &'a Shared,
    solver: Solver,
    norm: HashMap<u128, E>,
    steps: u64,
    spin: usize,
}

fn single_var(e: &E) -> Option<usize> {
    let mut n = 0;
    let mut at = 0;
    for (i, w) in e.vars.0.iter().enumerate() {
        if *w != 0 {
            n += w.count_ones();
            at = i * 64 + w.trailing_zeros() as usize;
        }
    }
    if n == 1 && at != UNDEF_VAR {
        Some(at)
    } else {
        None
    }
}

fn tab(e: &E, v: usize) -> Vec<u128> {
    let mut m = [0u8; NVARS];
    (0..256)
        .map(|b| {
            m[v] = b as u8;
            eval(e, &m)
        })
        .collect()
}

pub fn ite_v(c: &E, a: &V, b: &V, w: u32) -> V {
    match (a, b) {
        (V::U, x) | (x, V::U) => x.clone(),
        (V::A(x), V::A(y)) => V::A(Arc::new(x.iter().zip(y.iter()).map(|(p, q)| ite_any(c, p, q)).collect())),
        (V::C(x), V::C(y)) if x == y => a.clone(),
        _ => mk(ite(c, &a.e(w), &b.e(w))),
    }
}
/// width taken from whichever side knows it
fn ite_any(c: &E, a: &V, b: &V) -> V {
    let w = match (a, b) {
        (V::S(x), _) | (_, V::S(x)) => x.w,
        _ => 64,
    };
    ite_v(c, a, b, w)
}

impl State {
    fn slice(&self, v: &VarSet) -> Vec<Arc<CGroup>> {
        self.groups.iter().filter(|g| g.vars.intersects(v)).cloned().collect()
    }
    pub fn simp(&self, e: &E) -> E {
        if e.vars.intersects(&self.known) {
            subst(e, &self.known, &self.model[..], &mut HashMap::new())
        } else {
            e.clone()
        }
    }
    /// Adds a constraint that the state's model satisfies.
    fn add(&mut self, e: &E) {
        if e.as_const().is_some() {
            return;
        }
        if e.op == Op::And {
            let (a, b) = (e.args[0].clone(), e.args[1].clone());
            self.add(&a);
            self.add(&b);
            return;
        }
        let mut hit: Vec<usize> = vec![];
        for (i, g) in self.groups.iter().enumerate() {
            if g.vars.intersects(&e.vars) {
                hit.push(i);
            }
        }
        let mut ng = match hit.first() {
            None => CGroup { vars: e.vars, cs: vec![] },
            Some(i) => (*self.groups[*i]).clone(),
        };
        for i in hit.iter().skip(1) {
            ng.vars = ng.vars.union(&self.groups[*i].vars);
            ng.cs.extend(self.groups[*i].cs.iter().cloned());
        }
        ng.vars = ng.vars.union(&e.vars);
        if let Some(v) = single_var(e) {
            // one truth table per byte
            let mut t = tab(e, v);
            ng.cs.retain(|c| {
                if single_var(c) == Some(v) {
                    let u = tab(c, v);
                    for i in 0..256 {
                        t[i] &= u[i];
                    }
                    false
                } else {
                    true
                }
            });
            if t.iter().filter(|x| **x != 0).count() == 1 {
                self.known = self.known.union(&VarSet::one(v));
            }
            ng.cs.push(table(Arc::new(t), &var(v), 1));
        } else {
            ng.cs.push(e.clone());
        }
        let ng = Arc::new(ng);
        match hit.first() {
            None => self.groups.push(ng),
            Some(i) => {
                self.groups[*i] = ng;
                for k in hit.iter().skip(1).rev() {
                    self.groups.remove(*k);
                }
            }
        }
    }
    pub fn stack_names(&self, sh: &Shared) -> Vec<String> {
        let _ = sh;
        let mut v: Vec<String> = self.low.iter().map(|f| f.f.name.to_string()).collect();
        v.push(self.top.f.name.to_string());
        v
    }
}

enum Flow {
    Next,
    Jumped,
}

impl<'a> Worker<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        Worker { sh, solver: Solver::new(sh.stats.clone(), sh.cache.clone(), sh.timeout_ms), norm: HashMap::new(), steps: 0, spin: 0 }
    }

    fn push(&self, st: State) {
        self.sh.forks.fetch_add(1, Relaxed);
        self.sh.queue.lock().unwrap().push(st);
        self.sh.cv.notify_one();
    }

    /// Canonical form of a one-bit condition.
    fn normal(&mut self, e: &E) -> E {
        if e.size <= 3 && e.op != Op::Xor {
            if e.op == Op::Table {
                return e.clone();
            }
        }
        if let Some(v) = single_var(e) {
            if let Some(r) = self.norm.get(&e.hash) {
                return r.clone();
            }
            let r = table(Arc::new(tab(e, v)), &var(v), e.w);
            if self.norm.len() > 100_000 {
                self.norm.clear();
            }
            self.norm.insert(e.hash, r.clone());
            return r;
        }
        e.clone()
    }

    /// Is `c` satisfiable together with the state's constraints?  Returns the new model.
    fn feasible(&mut self, st: &State, c: &E) -> X<Option<Box<[u8; NVARS]>>> {
        if let Some(k) = c.as_const() {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        if eval(c, &st.model[..]) == 1 {
            self.sh.stats.model_hits.fetch_add(1, Relaxed);
            return Ok(Some(st.model.clone()));
        }
        let sl = st.slice(&c.vars);
        let mut cs: Vec<&E> = vec![c];
        for g in &sl {
            cs.extend(g.cs.iter());
        }
        match self.solver.check(&cs) {
            Ans::Sat(m) => {
                let mut n = st.model.clone();
                for (i, v) in m.iter() {
                    n[*i as usize] = *v;
                }
                // the model is checked against every constraint it is meant to satisfy
                for e in &cs {
                    if eval(e, &n[..]) != 1 {
                        return unsup("solver model does not satisfy the query");
                    }
                }
                Ok(Some(n))
            }
            Ans::Unsat => Ok(None),
            Ans::Unknown => unsup("solver gave no answer"),
        }
    }

    fn defined(&mut self, st: &State, e: &E) -> X<E> {
        let mut e = st.simp(e);
        if e.vars.has(UNDEF_VAR) {
            let k = VarSet::one(UNDEF_VAR);
            let mut m = [0u8; NVARS];
            let a = subst(&e, &k, &m, &mut HashMap::new());
            m[UNDEF_VAR] = 0xff;
            let b = subst(&e, &k, &m, &mut HashMap::new());
            if a.hash != b.hash {
                // the undefined bits may be masked by what is known about the inputs
                let d = if e.w == 1 { bin(Op::Xor, &a, &b) } else { not(&bin(Op::Eq, &a, &b)) };
                let d = self.normal(&d);
                if self.feasible(st, &d)?.is_some() {
                    return unsup("decision on an undefined value");
                }
            }
            e = a;
        }
        Ok(e)
    }

    /// Picks the value of `e` in the current model; other values are left to a sibling
    /// state that runs the same instruction again.
    fn concretize(&mut self, st: &mut State, e: &E) -> X<u64> {
        let e = self.defined(st, e)?;
        if let Some(k) = e.as_const() {
            return Ok(k as u64);
        }
        let v = eval(&e, &st.model[..]);
        let eq = self.normal(&bin(Op::Eq, &e, &konst(v, e.w)));
        let ne = self.normal(&not(&eq));
        if let Some(m) = self.feasible(st, &ne)? {
            let mut o = st.clone();
            o.model = m;
            o.add(&ne);
            o.conc += 1;
            if o.conc > 20_000 {
                return unsup("too many values to enumerate");
            }
            self.push(o);
        }
        st.add(&eq);
        Ok(v as u64)
    }
    fn conc_v(&mut self, st: &mut State, v: &V) -> X<u64> {
        match v {
            V::C(k) => Ok(*k),
            V::S(e) => {
                let e = e.clone();
                self.concretize(st, &e)
            }
            V::U => unsup("undefined value where a number is needed"),
            V::A(_) => unsup("aggregate where a number is needed"),
        }
    }

    /// Largest value of `e` on this path, at most `cap` (None: can exceed it).
    fn maximum(&mut self, st: &State, e: &E, cap: u64) -> X<Option<u64>> {
        let over = bin(Op::Ult, &konst(cap as u128, e.w), e);
        if self.feasible(st, &over)?.is_some() {
            return Ok(None);
        }
        let (mut lo, mut hi) = (eval(e, &st.model[..]) as u64, cap);
        while lo < hi {
            let mid = lo + (hi - lo + 1) / 2;
            let c = bin(Op::Ule, &konst(mid as u128, e.w), e);
            match self.feasible(st, &c)? {
                Some(m) => lo = (eval(e, &m[..]) as u64).max(mid),
                None => hi = mid - 1,
            }
        }
        Ok(Some(lo))
    }

    // ------------------------------------------------------------ values

    #[inline]
    fn opd(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(k) => kval(k),
        }
    }

    fn set(&self, st: &mut State, r: u32, v: V) {
        if r != NONE {
            st.top.regs[r as usize] = v;
        }
    }

    /// Cases of a symbolic address, if it is a choice between few constants.
    fn ptr_cases(&self, e: &E, add: u64, cond: &E, out: &mut Vec<(E, u64)>) -> bool {
        if out.len() > 40 {
            return false;
        }
        match e.op {
            Op::Const => {
                out.push((cond.clone(), (e.c as u64).wrapping_add(add)));
                true
            }
            Op::Ite => {
                let c1 = bin(Op::And, cond, &e.args[0]);
                let c2 = bin(Op::And, cond, &not(&e.args[0]));
                self.ptr_cases(&e.args[1], add, &c1, out) && self.ptr_cases(&e.args[2], add, &c2, out)
            }
            Op::Add => match e.args[1].as_const() {
                Some(k) => self.ptr_cases(&e.args[0], add.wrapping_add(k as u64), cond, out),
                None => false,
            },
            Op::Table => {
                let mut vals: Vec<u128> = e.table.as_ref().unwrap().to_vec();
                vals.sort();
                vals.dedup();
                if vals.len() > 40 {
                    return false;
                }
                for v in vals {
                    let c = bin(Op::And, cond, &bin(Op::Eq, e, &konst(v, 64)));
                    out.push((c, (v as u64).wrapping_add(add)));
                }
                true
            }
            _ => false,
        }
    }

    fn load_at(&self, st: &State, a: u64, t: &Ty) -> X<V> {
        let n = t.store_size();
        if n == 0 {
            return Ok(V::A(Arc::new((0..t.nfields()).map(|_| V::U).collect())));
        }
        let o = st.mem.get(&self.sh.g, a)?;
        let off = a & 0xffff_ffff;
        if off + n > o.len() {
            return Err(Fault::Oob(a).into());
        }
        Ok(o.read(off as usize, t))
    }

    fn load(&mut self, st: &mut State, p: &V, t: &Ty) -> X<V> {
        let e = match p {
            V::C(a) => return self.load_at(st, *a, t),
            V::S(e) => self.defined(st, e)?,
            _ => return unsup("load from undefined pointer"),
        };
        if let Some(k) = e.as_const() {
            return self.load_at(st, k as u64, t);
        }
        let n = t.store_size();
        if !t.is_agg() {
            let w = t.bits();
            // choice between constants
            let mut cases = vec![];
            if self.ptr_cases(&e, 0, &tru(), &mut cases) {
                let mut acc: Option<V> = None;
                for (c, a) in cases {
                    let c = self.normal(&c);
                    if c.as_const() == Some(0) || self.feasible(st, &c)?.is_none() {
                        continue;
                    }
                    let v = match self.load_at(st, a, t) {
                        Ok(v) => v,
                        Err(_) => {
                            // a faulting address is possible: follow it alone
                            let a = self.concretize(st, &e)?;
                            return self.load_at(st, a, t);
                        }
                    };
                    acc = Some(match acc {
                        None => v,
                        Some(x) => ite_v(&c, &v, &x, w),
                    });
                }
                return match acc {
                    Some(v) => Ok(v),
                    None => end(Event::Infeasible),
                };
            }
            let a0 = eval(&e, &st.model[..]) as u64;
            let base = a0 & !0xffff_ffff;
            let obj = st.mem.get(&self.sh.g, a0)?.clone();
            if (a0 & 0xffff_ffff) + n > obj.len() {
                return Err(Fault::Oob(a0).into());
            }
            let off = bin(Op::Sub, &e, &konst(base as u128, 64));
            let last = obj.len() - n;
            let inside = self.normal(&bin(Op::Ule, &off, &konst(last as u128, 64)));
            let outside = self.normal(&not(&inside));
            if let Some(m) = self.feasible(st, &outside)? {
                let mut o = st.clone();
                o.model = m;
                o.add(&outside);
                self.push(o);
                st.add(&inside);
            }
            if let Some(v) = single_var(&off) {
                let offs = tab(&off, v);
                let vals: Vec<V> = offs.iter().map(|o| if *o <= last as u128 { obj.read(*o as usize, t) } else { V::U }).collect();
                if vals.iter().all(|x| matches!(x, V::C(_) | V::U)) {
                    let ks: Vec<u128> = vals.iter().map(|x| if let V::C(k) = x { *k as u128 } else { 0 }).collect();
                    return Ok(mk(table(Arc::new(ks), &var(v), w)));
                }
            }
            let mut tz = 0;
            while tz < 12 && extract(&off, tz, 1).as_const() == Some(0) {
                tz += 1;
            }
            let stride = 1u64 << tz;
            let cnt = last / stride + 1;
            if cnt <= 4096 && w <= 64 {
                let vals: Vec<V> = (0..cnt).map(|i| obj.read((i * stride) as usize, t)).collect();
                let idx = extract(&off, tz, 64 - tz);
                if vals.iter().all(|x| matches!(x, V::C(_) | V::U)) {
                    let mut bits = 1;
                    while (1u64 << bits) < cnt {
                        bits += 1;
                    }
                    let ks: Vec<u128> = vals.iter().map(|x| if let V::C(k) = x { *k as u128 } else { 0 }).collect();
                    return Ok(mk(table(Arc::new(ks), &extract(&idx, 0, bits.min(idx.w)), w)));
                }
                if cnt <= 64 {
                    let mut acc = vals[cnt as usize - 1].clone();
                    for i in (0..cnt as usize - 1).rev() {
                        let c = bin(Op::Eq, &idx, &konst(i as u128, idx.w));
                        acc = ite_v(&c, &vals[i], &acc, w);
                    }
                    return Ok(acc);
                }
            }
        }
        let a = self.concretize(st, &e)?;
        self.load_at(st, a, t)
    }

    fn store(&mut self, st: &mut State, p: &V, t: &Ty, v: &V) -> X<()> {
        let a = self.conc_v(st, p)?;
        let n = t.store_size();
        if n == 0 {
            return Ok(());
        }
        let o = st.mem.get_mut(&self.sh.g, a)?;
        let off = a & 0xffff_ffff;
        if off + n > o.len() {
            return Err(Fault::Oob(a).into());
        }
        o.write(off as usize, t, v);
        Ok(())
    }

    fn bytes(&self, st: &State, a: u64, n: u64) -> X<Vec<E>> {
        if n == 0 {
            return Ok(vec![]);
        }
        st.mem.check(&self.sh.g, a, n)?;
        let o = st.mem.get(&self.sh.g, a)?;
        let off = (a & 0xffff_ffff) as usize;
        Ok((0..n as usize).map(|i| o.byte(off + i)).collect())
    }

    fn copy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        st.mem.check(&self.sh.g, s, n)?;
        st.mem.check(&self.sh.g, d, n)?;
        let src = st.mem.get(&self.sh.g, s)?.clone();
        let so = (s & 0xffff_ffff) as usize;
        let dst = st.mem.get_mut(&self.sh.g, d)?;
        let doff = (d & 0xffff_ffff) as usize;
        let n = n as usize;
        // drop symbolic entries of the destination range
        let gone: Vec<u32> = dst.sym.range(doff as u32..(doff + n) as u32).map(|x| *x.0).collect();
        for k in gone {
            dst.sym.remove(&k);
        }
        dst.data[doff..doff + n].copy_from_slice(&src.data[so..so + n]);
        dst.st[doff..doff + n].copy_from_slice(&src.st[so..so + n]);
        for (k, e) in src.sym.range(so as u32..(so + n) as u32) {
            dst.sym.insert((*k as usize - so + doff) as u32, e.clone());
        }
        Ok(())
    }

    // ------------------------------------------------------- control flow

    fn enter(&self, st: &mut State, to: u32, from: u32) {
        let f = st.top.f;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let p = &b.phis[0];
                let v = match p.inc.iter().find(|x| x.0 == from) {
                    Some((_, o)) => self.opd(st, o),
                    None => panic!("{}: no way from bb{} to bb{} {:?}", f.name, from, to, p.inc),
                };
                st.top.regs[p.res as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                let pos = b.phis[0].inc.iter().position(|x| x.0 == from).unwrap_or(0);
                for p in &b.phis {
                    let o = if p.inc.get(pos).map(|x| x.0) == Some(from) { &p.inc[pos].1 } else { &p.inc.iter().find(|x| x.0 == from).unwrap_or_else(|| panic!("{}: no way from bb{} to bb{} {:?}", f.name, from, to, p.inc)).1 };
                    vals.push(self.opd(st, o));
                }
                for (p, v) in b.phis.iter().zip(vals) {
                    st.top.regs[p.res as usize] = v;
                }
            }
        }
        st.top.blk = to;
        st.top.ip = 0;
    }

    /// Decides a two-way branch; the side that the model does not take goes to a sibling.
    fn branch(&mut self, st: &mut State, c: &E) -> X<(bool, Option<State>)> {
        let c = self.defined(st, c)?;
        let c = self.normal(&c);
        if let Some(k) = c.as_const() {
            return Ok((k == 1, None));
        }
        let side = eval(&c, &st.model[..]) == 1;
        let (mine, other) = if side { (c.clone(), not(&c)) } else { (not(&c), c) };
        let other = self.normal(&other);
        let mine = self.normal(&mine);
        match self.feasible(st, &other)? {
            Some(m) => {
                if let Some(p) = &self.sh.prof {
                    *p.lock().unwrap().entry(format!("{} bb{}:{}", st.top.f.name, st.top.blk, st.top.ip)).or_insert(0) += 1;
                }
                let mut o = st.clone();
                o.model = m;
                o.add(&other);
                st.add(&mine);
                Ok((side, Some(o)))
            }
            None => Ok((side, None)),
        }
    }

    fn term(&mut self, st: &mut State) -> X<()> {
        let f = st.top.f;
        let cur = st.top.blk;
        let b = &f.blocks[cur as usize];
        match &b.term {
            Term::Br(t) => self.enter(st, *t, cur),
            Term::Cond(c, t, e) => {
                let v = self.opd(st, c);
                let side = match v {
                    V::C(k) => k & 1 == 1,
                    V::S(x) => {
                        let (side, other) = self.branch(st, &x)?;
                        if let Some(mut o) = other {
                            self.enter(&mut o, if side { *e } else { *t }, cur);
                            self.push(o);
                        }
                        side
                    }
                    _ => return unsup("branch on undefined value"),
                };
                self.enter(st, if side { *t } else { *e }, cur);
            }
            Term::Switch(w, c, d, cases) => {
                let v = self.opd(st, c);
                let e = match v {
                    V::C(k) => {
                        let t = cases.iter().find(|x| x.0 == k as u128).map(|x| x.1).unwrap_or(*d);
                        self.enter(st, t, cur);
                        return Ok(());
                    }
                    V::S(e) => self.defined(st, &e)?,
                    _ => return unsup("switch on undefined value"),
                };
                if let Some(k) = e.as_const() {
                    let t = cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*d);
                    self.enter(st, t, cur);
                    return Ok(());
                }
                self.switch(st, f, b, cur, *w, &e)?;
            }
            Term::Ret(r) => {
                let v = r.as_ref().map(|(_, o)| self.opd(st, o));
                let sp = st.top.sp as usize;
                st.mem.stack.truncate(sp);
                let ret = st.top.ret;
                match st.low.pop() {
                    None => return end(Event::Ok),
                    Some(fr) => {
                        st.top = match Arc::try_unwrap(fr) {
                            Ok(f) => f,
                            Err(a) => (*a).clone(),
                        };
                        if let Some(r) = &st.os.run {
                            if r.depth == st.low.len() {
                                st.mem = r.mem.clone();
                                st.os.run = None;
                            }
                        }
                        if let Some(v) = v {
                            self.set(st, ret, v);
                        }
                        st.top.ip += 1;
                    }
                }
            }
            Term::Unreachable => return end(Event::Ub("unreachable code reached".into())),
        }
        Ok(())
    }

    fn switch(&mut self, st: &mut State, f: &Func, b: &Block, cur: u32, w: u32, e: &E) -> X<()> {
        let plan = b.plan.as_ref().unwrap();
        // the switch value as a table over one byte (or over itself when narrow)
        let (idx, vals): (Option<E>, Vec<u128>) = if let Some(v) = single_var(e) {
            (Some(var(v)), tab(e, v))
        } else if w <= 8 {
            (Some(e.clone()), (0..1u128 << w).collect())
        } else {
            (None, vec![])
        };
        let group_of = |k: u128| plan.case.get(&k).map(|x| x.0).unwrap_or(plan.default);
        let now = group_of(eval(e, &st.model[..]));
        let mut eqs: HashMap<u128, E> = HashMap::new();
        let mut eqv = |k: u128| eqs.entry(k).or_insert_with(|| bin(Op::Eq, e, &konst(k, w))).clone();
        let mut todo: Vec<(usize, State)> = vec![];
        let mut mine: Option<E> = None;
        for (gi, g) in plan.groups.iter().enumerate() {
            let c = match &idx {
                Some(i) => {
                    let t: Vec<u128> = vals.iter().map(|k| (group_of(*k) == gi) as u128).collect();
                    table(Arc::new(t), i, 1)
                }
                None => {
                    let mut c = konst(0, 1);
                    if g.is_default {
                        for (h, g2) in plan.groups.iter().enumerate() {
                            if h != gi {
                                for k in &g2.values {
                                    c = bin(Op::Or, &c, &eqv(*k));
                                }
                            }
                        }
                        not(&c)
                    } else {
                        for k in &g.values {
                            c = bin(Op::Or, &c, &eqv(*k));
                        }
                        c
                    }
                }
            };
            if c.as_const() == Some(0) {
                continue;
            }
            if gi == now {
                mine = Some(c);
                continue;
            }
            if let Some(m) = self.feasible(st, &c)? {
                let mut o = st.clone();
                o.model = m;
                o.add(&c);
                todo.push((gi, o));
            }
        }
        if !todo.is_empty() {
            if let Some(p) = &self.sh.prof {
                *p.lock().unwrap().entry(format!("{} bb{}:switch {}", f.name, cur, plan.groups.len())).or_insert(0) += todo.len() as u64;
            }
            st.add(&mine.unwrap());
        }
        for (gi, mut o) in todo {
            self.enter_group(&mut o, f, plan, gi, e, w, &idx, &vals)?;
            self.push(o);
        }
        let _ = cur;
        self.enter_group(st, f, plan, now, e, w, &idx, &vals)
    }

    fn enter_group(&mut self, st: &mut State, f: &Func, plan: &Plan, gi: usize, e: &E, w: u32, idx: &Option<E>, vals: &[u128]) -> X<()> {
        let g = &plan.groups[gi];
        if g.preds.len() == 1 {
            self.enter(st, g.target, g.preds[0]);
            return Ok(());
        }
        let tb = &f.blocks[g.target as usize];
        let mut news: Vec<(u32, V)> = vec![];
        for p in &tb.phis {
            let inc: HashMap<u32, &Opd> = p.inc.iter().map(|x| (x.0, &x.1)).collect();
            let mut ops: HashMap<u32, V> = HashMap::new();
            for pr in &g.preds {
                ops.insert(*pr, self.opd(st, inc[pr]));
            }
            let firsto = inc[&g.preds[0]];
            if g.preds.iter().all(|x| inc[x] == firsto) {
                news.push((p.res, ops[&g.preds[0]].clone()));
                continue;
            }
            let pred_of = |k: u128| -> Option<u32> {
                match plan.case.get(&k) {
                    Some((h, pr)) => (*h == gi).then_some(*pr),
                    None => (plan.default == gi).then_some(plan.default_pred),
                }
            };
            let scalar = ops.values().all(|v| matches!(v, V::C(_) | V::U));
            let width = if p.ty.is_agg() { 0 } else { p.ty.bits() };
            if let (Some(i), true, true) = (idx, scalar, width > 0 && width <= 64) {
                // undefined or impossible entries take a value that keeps the table simple
                let mut t: Vec<Option<u128>> = vals
                    .iter()
                    .map(|k| match pred_of(*k).map(|pr| &ops[&pr]) {
                        Some(V::C(x)) => Some(*x as u128),
                        _ => None,
                    })
                    .collect();
                let any = t.iter().flatten().next().copied();
                match any {
                    None => news.push((p.res, V::U)),
                    Some(d) => {
                        let t: Vec<u128> = t.drain(..).map(|x| x.unwrap_or(d)).collect();
                        news.push((p.res, mk(table(Arc::new(t), i, width))));
                    }
                }
                continue;
            }
            // general case: a chain of choices, grouped by predecessor
            let mut acc: Option<V> = if plan.default == gi { Some(ops[&plan.default_pred].clone()) } else { None };
            for pr in &g.preds {
                if plan.default == gi && *pr == plan.default_pred {
                    continue;
                }
                let mut c = konst(0, 1);
                for k in &g.values {
                    if plan.case[k].1 == *pr {
                        c = bin(Op::Or, &c, &bin(Op::Eq, e, &konst(*k, w)));
                    }
                }
                let c = self.normal(&c);
                acc = Some(match acc {
                    None => ops[pr].clone(),
                    Some(a) => {
                        if p.ty.is_agg() {
                            ite_any(&c, &ops[pr], &a)
                        } else {
                            ite_v(&c, &ops[pr], &a, width)
                        }
                    }
                });
            }
            news.push((p.res, acc.unwrap()));
        }
        for (r, v) in news {
            st.top.regs[r as usize] = v;
        }
        st.top.blk = g.target;
        st.top.ip = 0;
        Ok(())
    }

    // -------------------------------------------------------- instructions

    fn bin2(&mut self, op: Op, w: u32, a: &V, b: &V) -> X<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { !0 } else { (1u64 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(y) & m,
                    Op::Sub => x.wrapping_sub(y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Mul => x.wrapping_mul(y) & m,
                    Op::UDiv | Op::URem | Op::SDiv | Op::SRem if y == 0 => return end(Event::Ub("division by zero".into())),
                    _ => fold(op, w, x as u128, y as u128) as u64,
                };
                return Ok(V::C(r));
            }
        }
        match (op, a, b) {
            (Op::And, V::C(0), _) | (Op::And, _, V::C(0)) | (Op::Mul, V::C(0), _) | (Op::Mul, _, V::C(0)) => return Ok(V::C(0)),
            (_, V::U, V::U) => return Ok(V::U),
            _ => {}
        }
        if let V::A(x) = a {
            let y = match b {
                V::A(y) => y.clone(),
                _ => return unsup("vector operand"),
            };
            let n = x.len();
            let mut out = Vec::with_capacity(n);
            for i in 0..n {
                out.push(self.bin2(op, w, &x[i], &y[i])?);
            }
            return Ok(V::A(Arc::new(out)));
        }
        Ok(mk(bin(op, &a.e(w), &b.e(w))))
    }

    fn cmp(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::A(x), V::A(y)) = (a, b) {
            return V::A(Arc::new(x.iter().zip(y.iter()).map(|(p1, q)| self.cmp(p, w, p1, q)).collect()));
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = 64 - w.min(64);
            let (sx, sy) = (((x << s) as i64) >> s, ((y << s) as i64) >> s);
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return V::C(r as u64);
        }
        if let (V::U, V::U) = (a, b) {
            return V::U;
        }
        let (x, y) = (a.e(w), b.e(w));
        let e = match p {
            Pred::Eq => bin(Op::Eq, &x, &y),
            Pred::Ne => not(&bin(Op::Eq, &x, &y)),
            Pred::Ult => bin(Op::Ult, &x, &y),
            Pred::Ule => bin(Op::Ule, &x, &y),
            Pred::Ugt => bin(Op::Ult, &y, &x),
            Pred::Uge => bin(Op::Ule, &y, &x),
            Pred::Slt => bin(Op::Slt, &x, &y),
            Pred::Sle => bin(Op::Sle, &x, &y),
            Pred::Sgt => bin(Op::Slt, &y, &x),
            Pred::Sge => bin(Op::Sle, &y, &x),
        };
        mk(e)
    }

    fn float(&self, n: &str, t: &Ty, a: &V, b: &V) -> X<V> {
        if let (V::A(x), V::A(y)) = (a, b) {
            let r: X<Vec<V>> = x.iter().zip(y.iter()).map(|(p, q)| self.float(n, t, p, q)).collect();
            return Ok(V::A(Arc::new(r?)));
        }
        let w = t.bits();
        if w != 32 && w != 64 {
            return unsup(format!("floating-point {} of {} bits", n, w));
        }
        let (x, y) = (a.e(w), b.e(w));
        let r = match n {
            "fneg" => Some(fp::neg(&x)),
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => fp::arith(n, &x, &y),
            _ => fp::compare(n, &x, &y),
        };
        match r {
            Some(e) => Ok(mk(e)),
            None => unsup(format!("floating-point {}", n)),
        }
    }

    fn cast(&self, k: CastK, name: &str, a: &Ty, b: &Ty, v: V) -> X<V> {
        if let (V::A(x), CastK::Bit) = (&v, k) {
            // vector to integer or vector
            if let Ty::Vector(_, et) = a {
                let ew = et.bits();
                let mut e = x[0].e(ew);
                for y in x.iter().skip(1) {
                    e = concat(&y.e(ew), &e);
                }
                return match b {
                    Ty::Vector(n, bt) => {
                        let bw = bt.bits();
                        Ok(V::A(Arc::new((0..*n as u32).map(|i| mk(extract(&e, i * bw, bw))).collect())))
                    }
                    _ => Ok(mk(e)),
                };
            }
        }
        if let (V::A(x), Ty::Vector(_, at), Ty::Vector(_, bt)) = (&v, a, b) {
            let mut o = vec![];
            for y in x.iter() {
                o.push(self.cast(k, name, at, bt, y.clone())?);
            }
            return Ok(V::A(Arc::new(o)));
        }
        if let (Ty::Vector(n, bt), CastK::Bit) = (b, k) {
            let e = v.e(a.bits());
            let bw = bt.bits();
            return Ok(V::A(Arc::new((0..*n as u32).map(|i| mk(extract(&e, i * bw, bw))).collect())));
        }
        if let CastK::Fp = k {
            if !a.is_flt() && !b.is_flt() {
                return unsup("floating-point conversion");
            }
            return match fp::convert(name, &v.e(a.bits()), b.bits()) {
                Some(e) => Ok(mk(e)),
                None => unsup(format!("floating-point conversion {}", name)),
            };
        }
        let (wa, wb) = (a.bits(), b.bits());
        Ok(match (k, v) {
            (_, V::U) => {
                if k == CastK::Zext {
                    mk(zext(&undef(wa), wb))
                } else {
                    V::U
                }
            }
            (CastK::Bit, v) => v,
            (CastK::Trunc, V::C(x)) => V::C(x & mask(wb) as u64),
            (CastK::Zext, V::C(x)) if wb <= 64 => V::C(x),
            (CastK::Sext, V::C(x)) if wb <= 64 => V::C((sext(x as u128, wa) as u64) & mask(wb) as u64),
            (CastK::Trunc, v) => mk(extract(&v.e(wa), 0, wb)),
            (CastK::Zext, v) => mk(zext(&v.e(wa), wb)),
            (CastK::Sext, v) => mk(sign_ext(&v.e(wa), wb)),
            _ => return unsup("cast"),
        })
    }

    fn step(&mut self, st: &mut State) -> X<Flow> {
        let f = st.top.f;
        let b = &f.blocks[st.top.blk as usize];
        if st.top.ip as usize >= b.ins.len() {
            self.term(st)?;
            return Ok(Flow::Jumped);
        }
        let (res, ins) = &b.ins[st.top.ip as usize];
        let v = match ins {
            Ins::Nop => return Ok(Flow::Next),
            Ins::Bin(op, t, x, y) => {
                let (a, c) = (self.opd(st, x), self.opd(st, y));
                let w = match t {
                    Ty::Vector(_, et) => et.bits(),
                    t => t.bits(),
                };
                if matches!(op, Op::UDiv | Op::URem | Op::SDiv | Op::SRem) {
                    if let V::S(d) = &c {
                        let z = bin(Op::Eq, d, &konst(0, w));
                        let z = self.defined(st, &z)?;
                        if let Some(m) = self.feasible(st, &z)? {
                            st.model = m;
                            return end(Event::Ub("division by zero".into()));
                        }
                    }
                }
                self.bin2(*op, w, &a, &c)?
            }
            Ins::Icmp(p, t, x, y) => {
                let w = match t {
                    Ty::Vector(_, et) => et.bits(),
                    t => t.bits(),
                };
                let (a, c) = (self.opd(st, x), self.opd(st, y));
                self.cmp(*p, w, &a, &c)
            }
            Ins::Cast(k, n, a, bty, o) => {
                let v = self.opd(st, o);
                self.cast(*k, n, a, bty, v)?
            }
            Ins::Select(ct, c, t, x, y) => {
                let cv = self.opd(st, c);
                let (a, d) = (self.opd(st, x), self.opd(st, y));
                match cv {
                    V::C(k) => {
                        if k & 1 == 1 {
                            a
                        } else {
                            d
                        }
                    }
                    V::S(e) => {
                        let e = st.simp(&e);
                        match e.as_const() {
                            Some(1) => a,
                            Some(_) => d,
                            None => {
                                if t.is_agg() {
                                    ite_any(&e, &a, &d)
                                } else {
                                    ite_v(&e, &a, &d, t.bits())
                                }
                            }
                        }
                    }
                    V::A(cs) => {
                        let _ = ct;
                        match (&a, &d) {
                            (V::A(p), V::A(q)) => V::A(Arc::new(
                                (0..cs.len())
                                    .map(|i| match &cs[i] {
                                        V::C(1) => p[i].clone(),
                                        V::C(_) => q[i].clone(),
                                        c => ite_any(&c.e(1), &p[i], &q[i]),
                                    })
                                    .collect(),
                            )),
                            _ => return unsup("vector select"),
                        }
                    }
                    V::U => V::U,
                }
            }
            Ins::Load(t, p) => {
                let p = self.opd(st, p);
                self.load(st, &p, t)?
            }
            Ins::Store(t, v, p) => {
                let (v, p) = (self.opd(st, v), self.opd(st, p));
                self.store(st, &p, t, &v)?;
                return Ok(Flow::Next);
            }
            Ins::Gep(base, off, ix) => {
                let mut v = self.opd(st, base);
                if *off != 0 {
                    v = match v {
                        V::C(a) => V::C(a.wrapping_add(*off as u64)),
                        V::U => V::U,
                        v => mk(bin(Op::Add, &v.e(64), &konst(*off as u64 as u128, 64))),
                    };
                }
                for (o, w, scale) in ix {
                    let i = self.opd(st, o);
                    v = match (&v, &i) {
                        (V::C(a), V::C(k)) => V::C(a.wrapping_add((sext(*k as u128, *w) as i64).wrapping_mul(*scale) as u64)),
                        _ => {
                            let e = sign_ext(&i.e(*w), 64);
                            let e = if scale.count_ones() == 1 && *scale > 0 {
                                bin(Op::Shl, &e, &konst(scale.trailing_zeros() as u128, 64))
                            } else {
                                bin(Op::Mul, &e, &konst(*scale as u64 as u128, 64))
                            };
                            mk(bin(Op::Add, &v.e(64), &e))
                        }
                    };
                }
                v
            }
            Ins::Alloca(sz, _, n) => {
                let k = match self.opd(st, n) {
                    V::C(k) => k,
                    _ => return unsup("alloca"),
                };
                V::C(st.mem.push_stack(sz * k))
            }
            Ins::Call(..) => return self.call(st, *res, ins),
            Ins::Extract(a, ix) => {
                let mut v = self.opd(st, a);
                for i in ix {
                    v = match v {
                        V::A(x) => x[*i].clone(),
                        V::U => V::U,
                        _ => return unsup("extractvalue"),
                    };
                }
                v
            }
            Ins::Insert(t, a, x, ix) => {
                let (a, x) = (self.opd(st, a), self.opd(st, x));
                fn ins(t: &Ty, a: V, x: V, ix: &[usize]) -> V {
                    if ix.is_empty() {
                        return x;
                    }
                    let mut v: Vec<V> = match a {
                        V::A(y) => (*y).clone(),
                        _ => vec![V::U; t.nfields()],
                    };
                    let ft = t.field(ix[0]).1;
                    v[ix[0]] = ins(&ft, v[ix[0]].clone(), x, &ix[1..]);
                    V::A(Arc::new(v))
                }
                ins(t, a, x, ix)
            }
            Ins::Freeze(_, a) => match self.opd(st, a) {
                V::U => V::C(0),
                V::S(e) if e.vars.has(UNDEF_VAR) => mk(subst(&e, &VarSet::one(UNDEF_VAR), &[0u8; NVARS], &mut HashMap::new())),
                v => v,
            },
            Ins::Rmw(op, t, p, x) => {
                let (p, x) = (self.opd(st, p), self.opd(st, x));
                let p = V::C(self.conc_v(st, &p)?);
                let old = self.load(st, &p, t)?;
                let w = t.bits();
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin2(Op::Add, w, &old, &x)?,
                    "sub" => self.bin2(Op::Sub, w, &old, &x)?,
                    "and" => self.bin2(Op::And, w, &old, &x)?,
                    "or" => self.bin2(Op::Or, w, &old, &x)?,
                    "xor" => self.bin2(Op::Xor, w, &old, &x)?,
                    _ => return unsup(format!("atomicrmw {}", op)),
                };
                self.store(st, &p, t, &new)?;
                old
            }
            Ins::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (self.opd(st, p), self.opd(st, c), self.opd(st, n));
                let p = V::C(self.conc_v(st, &p)?);
                let old = self.load(st, &p, t)?;
                let eq = self.cmp(Pred::Eq, t.bits(), &old, &c);
                let k = self.conc_v(st, &eq)?;
                if k == 1 {
                    self.store(st, &p, t, &n)?;
                }
                V::A(Arc::new(vec![old, V::C(k)]))
            }
            Ins::ExtractElem(_, a, i) => {
                let (a, i) = (self.opd(st, a), self.opd(st, i));
                match (a, i) {
                    (V::A(x), V::C(k)) => x[k as usize].clone(),
                    (V::U, _) => V::U,
                    _ => return unsup("extractelement"),
                }
            }
            Ins::InsertElem(t, a, v, i) => {
                let (a, v, i) = (self.opd(st, a), self.opd(st, v), self.opd(st, i));
                let mut x: Vec<V> = match a {
                    V::A(x) => (*x).clone(),
                    _ => vec![V::U; t.nfields()],
                };
                match i {
                    V::C(k) => x[k as usize] = v,
                    _ => return unsup("insertelement"),
                }
                V::A(Arc::new(x))
            }
            Ins::Shuffle(t, a, b2, k) => {
                let (a, c) = (self.opd(st, a), self.opd(st, b2));
                let n = t.nfields();
                let get = |i: usize| -> V {
                    let (s, j) = if i < n { (&a, i) } else { (&c, i - n) };
                    match s {
                        V::A(x) => x[j].clone(),
                        _ => V::U,
                    }
                };
                match k {
                    K::A(ix) => V::A(Arc::new(
                        ix.iter()
                            .map(|i| match i {
                                K::I(i) => get(*i as usize),
                                _ => V::U,
                            })
                            .collect(),
                    )),
                    _ => return unsup("shufflevector"),
                }
            }
            Ins::FBin(n, t, x, y) | Ins::Fcmp(n, t, x, y) => {
                let (a, c) = (self.opd(st, x), self.opd(st, y));
                let t = match t {
                    Ty::Vector(_, et) => et,
                    t => t,
                };
                self.float(n, t, &a, &c)?
            }
            Ins::Unsupported(s) => return unsup(s.clone()),
        };
        self.set(st, *res, v);
        Ok(Flow::Next)
    }

    fn call(&mut self, st: &mut State, res: u32, ins: &Ins) -> X<Flow> {
        let (callee, args, rt, noret) = match ins {
            Ins::Call(a, b, c, d) => (a, b, c, *d),
            _ => unreachable!(),
        };
        let mut args: &[(Ty, Opd)] = args;
        let id = match callee {
            Callee::F(i) if self.sh.bi[*i as usize - 1] == Bi::VpRun => {
                let p = self.opd(st, &args[0].1);
                let a = self.conc_v(st, &p)?;
                let (r, id, _) = split(a);
                if r != REG_FUNC || st.os.run.is_some() {
                    return unsup("vp_run");
                }
                st.out = [None, None];
                st.os.fds.clear();
                st.os.run = Some(Arc::new(Run { depth: st.low.len(), mem: st.mem.clone() }));
                args = &args[1..];
                id
            }
            Callee::F(i) if self.sh.bi[*i as usize - 1] == Bi::VpInitArgs => match self.sh.m.func_by_id.iter().position(|d| d.name.ends_with("ARGV_INIT_ARRAY12init_wrapper")) {
                Some(k) => k as u32 + 1,
                None => return unsup("program arguments"),
            },
            Callee::F(i) => *i,
            Callee::P(o) => {
                let p = self.opd(st, o);
                if let V::S(e) = &p {
                    let e = self.defined(st, e)?;
                    if let Some((f, more)) = self.alike(st, &e)? {
                        let mut regs = vec![V::U; f.nregs as usize];
                        let n = f.params.len() - more.len();
                        for (p, (_, o)) in f.params[..n].iter().zip(args) {
                            regs[*p as usize] = self.opd(st, o);
                        }
                        for (p, v) in f.params[n..].iter().zip(more) {
                            regs[*p as usize] = v;
                        }
                        return self.enter_func(st, f, regs, res);
                    }
                }
                let a = self.conc_v(st, &p)?;
                let (r, id, off) = split(a);
                if r != REG_FUNC || off != 0 || id == 0 || id as usize > self.sh.bi.len() {
                    return end(Event::Ub(format!("call through bad pointer {:x}", a)));
                }
                id
            }
        };
        let d = &self.sh.m.func_by_id[id as usize - 1];
        let bi = self.sh.bi[id as usize - 1];
        if bi == Bi::Body {
            if noret && !d.noreturn && !d.name.contains("4exit") {
                return end(Event::Panic(d.name.to_string()));
            }
            let f = match self.sh.m.func(d) {
                Ok(f) => f,
                Err(e) => return unsup(format!("cannot parse {}: {}", d.name, e)),
            };
            if !self.sh.touched[id as usize - 1].load(Relaxed) {
                self.sh.touched[id as usize - 1].store(true, Relaxed);
            }
            let mut regs = vec![V::U; f.nregs as usize];
            for (p, (_, o)) in f.params.iter().zip(args) {
                regs[*p as usize] = self.opd(st, o);
            }
            return self.enter_func(st, f, regs, res);
        }
        let a: Vec<V> = args.iter().map(|(_, o)| self.opd(st, o)).collect();
        let w0 = args.first().map(|(t, _)| if t.is_agg() || *t == Ty::Other { 0 } else { t.bits() }).unwrap_or(0);
        let lanes = match (args.first(), rt, bi) {
            (
                Some((Ty::Vector(n, at), _)),
                Ty::Vector(_, et),
                Bi::Umin | Bi::Umax | Bi::Smin | Bi::Smax | Bi::UaddSat | Bi::UsubSat | Bi::Ctlz | Bi::Cttz | Bi::Ctpop | Bi::Bswap | Bi::Bitreverse | Bi::Fshl | Bi::Fshr | Bi::Abs | Bi::Float,
            ) => Some((*n as usize, at, et)),
            _ => None,
        };
        let v = if let Some((n, at, et)) = lanes {
            let mut out = vec![];
            for i in 0..n {
                let lane: Vec<V> = a
                    .iter()
                    .map(|x| match x {
                        V::A(v) => v[i].clone(),
                        x => x.clone(),
                    })
                    .collect();
                out.push(self.builtin(st, bi, &d.name, &lane, at.bits(), et)?);
            }
            V::A(Arc::new(out))
        } else {
            self.builtin(st, bi, &d.name, &a, w0, rt)?
        };
        self.set(st, res, v);
        Ok(Flow::Next)
    }

    fn enter_func(&mut self, st: &mut State, f: &'static Func, regs: Vec<V>, res: u32) -> X<Flow> {
        let nf = Frame { f, regs, blk: 0, ip: 0, ret: res, sp: st.mem.stack.len() as u32 };
        let old = std::mem::replace(&mut st.top, nf);
        st.low.push(Arc::new(old));
        if st.low.len() > 4000 {
            return end(Event::Depth);
        }
        Ok(Flow::Jumped)
    }

    /// A call through a pointer chosen from a table: the targets that differ from
    /// the current one in integers only are called together.
    fn alike(&mut self, st: &mut State, e: &E) -> X<Option<(&'static Func, Vec<V>)>> {
        let (vals, idx) = match single_var(e) {
            Some(v) => (tab(e, v), var(v)),
            None if e.op == Op::Table => (e.table.as_ref().unwrap().to_vec(), e.args[0].clone()),
            None => return Ok(None),
        };
        let m = self.sh.m.clone();
        let shape = |a: u128| {
            let (r, id, off) = split(a as u64);
            if a >> 64 != 0 || r != REG_FUNC || off != 0 || id == 0 || id as usize > self.sh.bi.len() || self.sh.bi[id as usize - 1] != Bi::Body {
                return None;
            }
            let d = &m.func_by_id[id as usize - 1];
            if d.noreturn {
                return None;
            }
            m.shape(d).map(|s| (id, s))
        };
        let own = match shape(eval(e, &st.model[..])) {
            Some((_, s)) => s,
            None => return Ok(None),
        };
        let of: Vec<Option<(u32, &Shape)>> = vals.iter().map(|a| shape(*a).filter(|x| x.1.text == own.text)).collect();
        let mut ids: Vec<u32> = of.iter().flatten().map(|x| x.0).collect();
        ids.sort();
        ids.dedup();
        if ids.len() < 2 {
            return Ok(None);
        }
        for id in &ids {
            self.sh.touched[*id as usize - 1].store(true, Relaxed);
        }
        let inside = self.normal(&table(Arc::new(of.iter().map(|x| x.is_some() as u128).collect()), &idx, 1));
        if inside.as_const() != Some(1) {
            let outside = self.normal(&not(&inside));
            if let Some(mo) = self.feasible(st, &outside)? {
                let mut o = st.clone();
                o.model = mo;
                o.add(&outside);
                self.push(o);
                st.add(&inside);
            }
        }
        let fam = m.family(&ids);
        let more = fam
            .holes
            .iter()
            .map(|k| mk(table(Arc::new(of.iter().map(|x| x.map_or(0, |x| x.1.ints[*k].1)).collect()), &idx, own.ints[*k].0)))
            .collect();
        Ok(Some((fam.f, more)))
    }

    fn malloc(&mut self, st: &mut State, n: &V, zero: bool) -> X<u64> {
        let limit = st.limit;
        let n = match n {
            V::C(k) => *k,
            V::S(e) => {
                let e = self.defined(st, e)?;
                match e.as_const() {
                    Some(k) => k as u64,
                    None => {
                        let room = limit.saturating_sub(st.mem.live);
                        match self.maximum(st, &e, room)? {
                            Some(k) => k,
                            None => {
                                // the excessive sizes are a finding, the others go on
                                let over = bin(Op::Ult, &konst(room as u128, 64), &e);
                                let mut o = st.clone();
                                o.model = self.feasible(st, &over)?.unwrap();
                                o.add(&over);
                                let fits = not(&over);
                                if let Some(m) = self.feasible(st, &fits)? {
                                    let mut r = st.clone();
                                    r.model = m;
                                    r.add(&fits);
                                    self.push(r);
                                }
                                *st = o;
                                let v = eval(&e, &st.model[..]) as u64;
                                return end(Event::Alloc(v));
                            }
                        }
                    }
                }
            }
            _ => return unsup("allocation of undefined size"),
        };
        if st.mem.live.saturating_add(n) > limit {
            return end(Event::Alloc(n));
        }
        let a = st.mem.alloc(n, zero);
        if st.mem.peak > self.sh.maxlive.load(Relaxed) {
            self.sh.maxlive.fetch_max(st.mem.peak, Relaxed);
        }
        Ok(a)
    }

    fn builtin(&mut self, st: &mut State, bi: Bi, name: &str, a: &[V], w: u32, rt: &Ty) -> X<V> {
        let ov = |r: E, o: E| V::A(Arc::new(vec![mk(r), mk(o)]));
        Ok(match bi {
            Bi::Body => unreachable!(),
            Bi::Nop => V::U,
            Bi::Memcpy => {
                let n = self.conc_v(st, &a[2])?;
                let d = if n == 0 { 0 } else { self.conc_v(st, &a[0])? };
                let s = if n == 0 { 0 } else { self.conc_v(st, &a[1])? };
                self.copy(st, d, s, n)?;
                a[0].clone()
            }
            Bi::Memset => {
                let n = self.conc_v(st, &a[2])?;
                if n > 0 {
                    let d = self.conc_v(st, &a[0])?;
                    let x = match &a[1] {
                        V::C(k) => konst((*k & 0xff) as u128, 8),
                        V::S(e) => extract(e, 0, 8),
                        _ => var(UNDEF_VAR),
                    };
                    st.mem.check(&self.sh.g, d, n)?;
                    let o = st.mem.get_mut(&self.sh.g, d)?;
                    let off = (d & 0xffff_ffff) as usize;
                    for i in 0..n as usize {
                        o.set_byte(off + i, &x);
                    }
                }
                a[0].clone()
            }
            Bi::Memcmp | Bi::Bcmp => {
                let n = self.conc_v(st, &a[2])?;
                if n == 0 {
                    return Ok(V::C(0));
                }
                let (p, q) = (self.conc_v(st, &a[0])?, self.conc_v(st, &a[1])?);
                let x = self.bytes(st, p, n)?;
                let y = self.bytes(st, q, n)?;
                let mut r = konst(0, 32);
                for i in (0..n as usize).rev() {
                    let eq = bin(Op::Eq, &x[i], &y[i]);
                    let ne = if bi == Bi::Bcmp { konst(1, 32) } else { ite(&bin(Op::Ult, &x[i], &y[i]), &konst(mask(32), 32), &konst(1, 32)) };
                    r = ite(&eq, &r, &ne);
                }
                mk(r)
            }
            Bi::Strlen => {
                let p = self.conc_v(st, &a[0])?;
                let mut n = 0;
                loop {
                    let b = self.bytes(st, p + n, 1)?.pop().unwrap();
                    if self.decide(st, &bin(Op::Eq, &b, &konst(0, 8)))? {
                        break;
                    }
                    n += 1;
                }
                V::C(n)
            }
            Bi::Strerror => {
                let e = self.conc_v(st, &a[0])?;
                let t = match e {
                    2 => "No such file or directory",
                    9 => "Bad file descriptor",
                    21 => "Is a directory",
                    _ => "Error",
                };
                let p = self.conc_v(st, &a[1])?;
                let b: Vec<E> = t.bytes().chain([0]).map(|x| konst(x as u128, 8)).collect();
                self.put(st, p, &b)?;
                V::C(0)
            }
            Bi::Malloc => V::C(self.malloc(st, &a[0], false)?),
            Bi::Calloc => {
                let e = self.bin2(Op::Mul, 64, &a[0], &a[1])?;
                V::C(self.malloc(st, &e, true)?)
            }
            Bi::PosixMemalign => {
                let n = a[2].clone();
                let p = self.conc_v(st, &a[0])?;
                let r = self.malloc(st, &n, false)?;
                self.store(st, &V::C(p), &Ty::Ptr, &V::C(r))?;
                V::C(0)
            }
            Bi::Realloc => {
                let p = self.conc_v(st, &a[0])?;
                let n = a[1].clone();
                if p == 0 {
                    return Ok(V::C(self.malloc(st, &n, false)?));
                }
                let old = st.mem.get(&self.sh.g, p)?.len();
                // growth in place: the old block does not count twice
                st.mem.live -= old;
                let q = self.malloc(st, &n, false);
                st.mem.live += old;
                let q = q?;
                let new = st.mem.get(&self.sh.g, q)?.len();
                self.copy(st, q, p, old.min(new))?;
                st.mem.free(p)?;
                V::C(q)
            }
            Bi::Free => {
                let p = self.conc_v(st, &a[0])?;
                if p != 0 {
                    st.mem.free(p)?;
                }
                V::U
            }
            Bi::Umin | Bi::Umax | Bi::Smin | Bi::Smax => {
                if let V::A(_) = a[0] {
                    return unsup("vector min/max");
                }
                let (x, y) = (a[0].e(w), a[1].e(w));
                let c = match bi {
                    Bi::Umin => bin(Op::Ule, &x, &y),
                    Bi::Umax => bin(Op::Ule, &y, &x),
                    Bi::Smin => bin(Op::Sle, &x, &y),
                    _ => bin(Op::Sle, &y, &x),
                };
                mk(ite(&st.simp(&c), &x, &y))
            }
            Bi::UaddOv | Bi::UsubOv | Bi::UmulOv | Bi::SaddOv | Bi::SsubOv | Bi::SmulOv => {
                if let (V::U, _) | (_, V::U) = (&a[0], &a[1]) {
                    return unsup("arithmetic on undefined value");
                }
                let (x, y) = (a[0].e(w), a[1].e(w));
                match bi {
                    Bi::UaddOv => {
                        let r = bin(Op::Add, &x, &y);
                        let o = bin(Op::Ult, &r, &x);
                        ov(r, o)
                    }
                    Bi::UsubOv => ov(bin(Op::Sub, &x, &y), bin(Op::Ult, &x, &y)),
                    _ => {
                        let w2 = match bi {
                            Bi::UmulOv | Bi::SmulOv => 2 * w,
                            _ => w + 1,
                        };
                        if w2 > 128 {
                            return unsup("wide overflow check");
                        }
                        let sg = bi != Bi::UmulOv;
                        let ex = |e: &E| if sg { sign_ext(e, w2) } else { zext(e, w2) };
                        let op = match bi {
                            Bi::SaddOv => Op::Add,
                            Bi::SsubOv => Op::Sub,
                            _ => Op::Mul,
                        };
                        let full = bin(op, &ex(&x), &ex(&y));
                        let r = extract(&full, 0, w);
                        let o = not(&bin(Op::Eq, &full, &ex(&r)));
                        ov(r, o)
                    }
                }
            }
            Bi::UaddSat => {
                let (x, y) = (a[0].e(w), a[1].e(w));
                let r = bin(Op::Add, &x, &y);
                mk(ite(&bin(Op::Ult, &r, &x), &konst(mask(w), w), &r))
            }
            Bi::UsubSat => {
                let (x, y) = (a[0].e(w), a[1].e(w));
                mk(ite(&bin(Op::Ult, &x, &y), &konst(0, w), &bin(Op::Sub, &x, &y)))
            }
            Bi::Float => {
                let x = a[0].e(w);
                let n = name.strip_prefix("llvm.").unwrap_or(name);
                let root = n.split('.').next().unwrap_or(n);
                mk(match root {
                    "fabs" => fp::abs(&x),
                    "copysign" => fp::copysign(&x, &a[1].e(w)),
                    "is" => match &a[1] {
                        V::C(m) => fp::class(&x, *m as u128),
                        _ => return unsup(name),
                    },
                    "fptosi" | "fptoui" => match fp::convert(root, &x, rt.bits()) {
                        Some(e) => e,
                        None => return unsup(name),
                    },
                    "minnum" | "maxnum" | "minimumnum" | "maximumnum" => fp::extreme(&x, &a[1].e(w), root.starts_with("min")),
                    "sqrt" => fp::unary(fp::Fo::Sqrt, &x),
                    "floor" => fp::unary(fp::Fo::Floor, &x),
                    "ceil" => fp::unary(fp::Fo::Ceil, &x),
                    "trunc" => fp::unary(fp::Fo::Trunc, &x),
                    "round" => fp::unary(fp::Fo::Away, &x),
                    _ => fp::unary(fp::Fo::Even, &x),
                })
            }
            Bi::Ctlz => {
                let x = a[0].e(w);
                let mut r = konst(w as u128, w);
                for i in 0..w {
                    r = ite(&extract(&x, i, 1), &konst((w - 1 - i) as u128, w), &r);
                }
                mk(r)
            }
            Bi::Cttz => {
                let x = a[0].e(w);
                let mut r = konst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(&extract(&x, i, 1), &konst(i as u128, w), &r);
                }
                mk(r)
            }
            Bi::Ctpop => {
                let x = a[0].e(w);
                let mut r = konst(0, w);
                for i in 0..w {
                    r = bin(Op::Add, &r, &zext(&extract(&x, i, 1), w));
                }
                mk(r)
            }
            Bi::Bswap => {
                let x = a[0].e(w);
                let n = w / 8;
                let mut r = extract(&x, 0, 8);
                for i in 1..n {
                    r = concat(&r, &extract(&x, 8 * i, 8));
                }
                mk(r)
            }
            Bi::Bitreverse => {
                let x = a[0].e(w);
                let mut r = extract(&x, 0, 1);
                for i in 1..w {
                    r = concat(&r, &extract(&x, i, 1));
                }
                mk(r)
            }
            Bi::Fshl | Bi::Fshr => {
                let s = match &a[2] {
                    V::C(k) => (*k % w as u64) as u32,
                    s => {
                        let s = bin(Op::URem, &s.e(w), &konst(w as u128, w));
                        let s = zext(&s, 2 * w);
                        let c = concat(&a[0].e(w), &a[1].e(w));
                        return Ok(mk(if bi == Bi::Fshl { extract(&bin(Op::Shl, &c, &s), w, w) } else { extract(&bin(Op::LShr, &c, &s), 0, w) }));
                    }
                };
                let c = concat(&a[0].e(w), &a[1].e(w));
                let lo = if bi == Bi::Fshl { w - s } else { s };
                mk(extract(&c, lo, w))
            }
            Bi::Ucmp | Bi::Scmp => {
                let (x, y) = (a[0].e(w), a[1].e(w));
                let rw = rt.bits();
                let lt = bin(if bi == Bi::Ucmp { Op::Ult } else { Op::Slt }, &x, &y);
                let eq = bin(Op::Eq, &x, &y);
                mk(ite(&lt, &konst(mask(rw), rw), &ite(&eq, &konst(0, rw), &konst(1, rw))))
            }
            Bi::Abs => {
                let x = a[0].e(w);
                let neg = extract(&x, w - 1, 1);
                mk(ite(&neg, &bin(Op::Sub, &konst(0, w), &x), &x))
            }
            Bi::Expect => a[0].clone(),
            Bi::IsConst => V::C(0),
            Bi::TlsAddr => a[0].clone(),
            Bi::LoadRel => {
                let p = self.conc_v(st, &a[0])?;
                let t = match self.sh.m.relative.get(&p) {
                    Some(t) => *t,
                    None => return unsup("load.relative"),
                };
                let at = match &a[1] {
                    V::C(o) => V::C(t.wrapping_add(o.wrapping_mul(2))),
                    o => mk(bin(Op::Add, &konst(t as u128, 64), &bin(Op::Shl, &o.e(64), &konst(1, 64)))),
                };
                self.load(st, &at, &Ty::Ptr)?
            }
            Bi::Trap => return end(Event::Panic("trap".into())),
            Bi::Panic => return end(Event::Panic(name.to_string())),
            Bi::Exit => {
                let c = self.conc_v(st, &a[0])?;
                return end(Event::Exit(c & 0xff));
            }
            Bi::VpSym => {
                let p = self.conc_v(st, &a[0])?;
                let n = self.conc_v(st, &a[1])?;
                if st.nvars + n as usize > UNDEF_VAR {
                    return unsup("too many symbolic bytes");
                }
                st.mem.check(&self.sh.g, p, n)?;
                let base = st.nvars;
                st.nvars += n as usize;
                let o = st.mem.get_mut(&self.sh.g, p)?;
                let off = (p & 0xffff_ffff) as usize;
                for i in 0..n as usize {
                    o.set_byte(off + i, &var(base + i));
                }
                V::U
            }
            Bi::VpByte => {
                if st.nvars + 1 > UNDEF_VAR {
                    return unsup("too many symbolic bytes");
                }
                let v = var(st.nvars);
                st.nvars += 1;
                V::S(v)
            }
            Bi::VpAssume => {
                let c = match &a[0] {
                    V::C(k) => {
                        if *k & 1 == 1 {
                            return Ok(V::U);
                        }
                        return end(Event::Infeasible);
                    }
                    V::S(e) => self.defined(st, e)?,
                    _ => return unsup("assumption on undefined value"),
                };
                let c = if c.w == 1 { c } else { not(&bin(Op::Eq, &c, &konst(0, c.w))) };
                let c = self.normal(&c);
                match self.feasible(st, &c)? {
                    Some(m) => {
                        st.model = m;
                        st.add(&c);
                    }
                    None => return end(Event::Infeasible),
                }
                V::U
            }
            Bi::VpFail => {
                let c = self.conc_v(st, &a[0])?;
                return end(Event::Fail(c));
            }
            Bi::VpObs => {
                let e = match &a[0] {
                    V::U => undef(64),
                    v => v.e(64),
                };
                st.obs = Some(Arc::new(ObsNode { prev: st.obs.take(), val: e }));
                V::U
            }
            Bi::VpReach => {
                let c = self.conc_v(st, &a[0])? as usize;
                st.reach[(c / 64) % 4] |= 1 << (c % 64);
                V::U
            }
            Bi::VpIsSym => V::C(1),
            Bi::VpLimit => {
                st.limit = st.mem.live + self.conc_v(st, &a[0])?;
                st.mem.peak = st.mem.live;
                V::U
            }
            Bi::VpLive => V::C(st.mem.live),
            Bi::VpPeak => V::C(st.mem.peak),
            Bi::VpFile => {
                // vp_file(name, length, data, length, directory?)
                let (p, n) = (self.conc_v(st, &a[0])?, self.conc_v(st, &a[1])?);
                let (q, m) = (self.conc_v(st, &a[2])?, self.conc_v(st, &a[3])?);
                let dir = self.conc_v(st, &a[4])? & 1 == 1;
                let name = Arc::new(self.bytes(st, p, n)?);
                let data = Arc::new(if m == 0 { vec![] } else { self.bytes(st, q, m)? });
                st.os.files.push(File { name, data, dir });
                V::U
            }
            Bi::VpOut => {
                // vp_out(fd, buffer, capacity) -> length
                let fd = self.conc_v(st, &a[0])?;
                let (p, cap) = (self.conc_v(st, &a[1])?, self.conc_v(st, &a[2])?);
                let mut b = vec![];
                let mut o = st.out[(fd == 2) as usize].clone();
                while let Some(x) = o {
                    b.push(x.val.clone());
                    o = x.prev.clone();
                }
                b.reverse();
                let n = b.len() as u64;
                b.truncate(cap as usize);
                self.put(st, p, &b)?;
                V::C(n)
            }
            Bi::Open => {
                // open(path, ..) or openat(dir, path, ..)
                let p = self.conc_v(st, &a[name.starts_with("openat") as usize])?;
                match self.lookup(st, p)? {
                    None => {
                        self.set_errno(st, 2)?;
                        V::C(0xffff_ffff)
                    }
                    Some(i) => {
                        let fd = match st.os.fds.iter().position(|x| x.is_none()) {
                            Some(k) => k,
                            None => {
                                st.os.fds.push(None);
                                st.os.fds.len() - 1
                            }
                        };
                        st.os.fds[fd] = Some((i, 0));
                        V::C(fd as u64 + 3)
                    }
                }
            }
            Bi::Read | Bi::Pread => {
                let fd = self.conc_v(st, &a[0])?;
                let (i, pos) = match self.fd(st, fd)? {
                    Some(x) => x,
                    None => return Ok(V::C(!0)),
                };
                if st.os.files[i].dir {
                    self.set_errno(st, 21)?;
                    return Ok(V::C(!0));
                }
                let pos = if bi == Bi::Pread { self.conc_v(st, &a[3])? } else { pos };
                let n = self.conc_v(st, &a[2])?;
                let p = self.conc_v(st, &a[1])?;
                let file = st.os.files[i].data.clone();
                let k = n.min((file.len() as u64).saturating_sub(pos));
                self.put(st, p, &file[pos.min(file.len() as u64) as usize..][..k as usize])?;
                if bi == Bi::Read {
                    st.os.fds[fd as usize - 3] = Some((i, pos + k));
                }
                V::C(k)
            }
            Bi::Write => {
                let fd = self.conc_v(st, &a[0])?;
                let n = self.conc_v(st, &a[2])?;
                let p = self.conc_v(st, &a[1])?;
                self.output(st, fd, p, n)?;
                V::C(n)
            }
            Bi::Writev => {
                let fd = self.conc_v(st, &a[0])?;
                let v = self.conc_v(st, &a[1])?;
                let k = self.conc_v(st, &a[2])?;
                let mut total = 0;
                for i in 0..k {
                    let p = self.load(st, &V::C(v + 16 * i), &Ty::Ptr)?;
                    let p = self.conc_v(st, &p)?;
                    let n = self.load(st, &V::C(v + 16 * i + 8), &Ty::Int(64))?;
                    let n = self.conc_v(st, &n)?;
                    self.output(st, fd, p, n)?;
                    total += n;
                }
                V::C(total)
            }
            Bi::Lseek => {
                let fd = self.conc_v(st, &a[0])?;
                let (i, pos) = match self.fd(st, fd)? {
                    Some(x) => x,
                    None => return Ok(V::C(!0)),
                };
                let off = self.conc_v(st, &a[1])?;
                let np = match self.conc_v(st, &a[2])? {
                    0 => off,
                    1 => pos.wrapping_add(off),
                    _ => (st.os.files[i].data.len() as u64).wrapping_add(off),
                };
                st.os.fds[fd as usize - 3] = Some((i, np));
                V::C(np)
            }
            Bi::Fstat | Bi::Stat | Bi::Statx => {
                let (i, buf, mode_at, size_at, len) = if bi == Bi::Statx {
                    let dir = self.conc_v(st, &a[0])? as i32;
                    let path = self.conc_v(st, &a[1])?;
                    let buf = self.conc_v(st, &a[4])?;
                    if path == 0 {
                        // a probe for the call itself
                        self.set_errno(st, 14)?;
                        return Ok(V::C(0xffff_ffff));
                    }
                    let i = if self.bytes(st, path, 1)?[0].as_const() == Some(0) { self.fd(st, dir as u64)?.map(|x| x.0) } else { self.lookup(st, path)? };
                    (i, buf, 28, 40, 256)
                } else {
                    let buf = self.conc_v(st, &a[1])?;
                    let x = self.conc_v(st, &a[0])?;
                    let i = if bi == Bi::Stat { self.lookup(st, x)? } else { self.fd(st, x)?.map(|x| x.0) };
                    (i, buf, 24, 48, 144)
                };
                let i = match i {
                    Some(i) => i,
                    None => {
                        self.set_errno(st, 2)?;
                        return Ok(V::C(0xffff_ffff));
                    }
                };
                let f = &st.os.files[i];
                let mode: u64 = if f.dir { 0o40755 } else { 0o100644 };
                let size = if f.dir { 4096 } else { f.data.len() as u64 };
                let mut b = vec![konst(0, 8); len];
                let mut word = |at: usize, v: u64, n: usize| {
                    for k in 0..n {
                        b[at + k] = konst((v >> (8 * k)) as u128 & 0xff, 8);
                    }
                };
                if bi == Bi::Statx {
                    word(0, 0x17ff, 4);
                    word(4, 4096, 4);
                    word(mode_at, mode, 2);
                } else {
                    word(mode_at, mode, 4);
                }
                word(size_at, size, 8);
                self.put(st, buf, &b)?;
                V::C(0)
            }
            Bi::Close => {
                let fd = self.conc_v(st, &a[0])?;
                if self.fd(st, fd)?.is_some() {
                    st.os.fds[fd as usize - 3] = None;
                }
                V::C(0)
            }
            Bi::VpRun | Bi::VpInitArgs => unreachable!(),
            Bi::Getenv | Bi::Zero => V::C(0),
            Bi::Errno => V::C(self.errno(st)),
            // a keyed hash of the standard library: no result may depend on it, so any function will do
            Bi::Hash => V::C(0x0123_4567_89ab_cdef),
            // hash keys; fixed, as no result may depend on them
            Bi::Getrandom => {
                let n = self.conc_v(st, &a[1])?;
                let d = self.conc_v(st, &a[0])?;
                st.mem.check(&self.sh.g, d, n)?;
                let o = st.mem.get_mut(&self.sh.g, d)?;
                let off = (d & 0xffff_ffff) as usize;
                for i in 0..n as usize {
                    o.set_byte(off + i, &konst((0x5d * (i as u128 + 1)) & 0xff, 8));
                }
                V::C(n)
            }
            Bi::Syscall => return unsup("system call"),
            Bi::Unknown => return unsup(format!("call of {}", name)),
        })
    }

    fn leave(&mut self, st: &mut State, code: u64) {
        let r = st.os.run.take().unwrap();
        st.mem = r.mem.clone();
        let mut ret = st.top.ret;
        while st.low.len() > r.depth {
            let f = st.low.pop().unwrap();
            if st.low.len() == r.depth {
                st.top = (*f).clone();
            } else {
                ret = f.ret;
            }
        }
        self.set(st, ret, V::C(code));
        st.top.ip += 1;
    }
    fn put(&mut self, st: &mut State, p: u64, b: &[E]) -> X<()> {
        if !b.is_empty() {
            st.mem.check(&self.sh.g, p, b.len() as u64)?;
            let o = st.mem.get_mut(&self.sh.g, p)?;
            let off = (p & 0xffff_ffff) as usize;
            for (i, x) in b.iter().enumerate() {
                o.set_byte(off + i, x);
            }
        }
        Ok(())
    }
    fn output(&mut self, st: &mut State, fd: u64, p: u64, n: u64) -> X<()> {
        let k = match fd {
            1 => 0,
            2 => 1,
            _ => return unsup("write to a file"),
        };
        if n > 0 {
            for val in self.bytes(st, p, n)? {
                st.out[k] = Some(Arc::new(ObsNode { prev: st.out[k].take(), val }));
            }
        }
        Ok(())
    }
    fn fd(&mut self, st: &mut State, fd: u64) -> X<Option<(usize, u64)>> {
        let r = if fd < 3 { None } else { st.os.fds.get(fd as usize - 3).copied().flatten() };
        if r.is_none() {
            self.set_errno(st, 9)?;
        }
        Ok(r)
    }
    /// Whether `c` holds; the other side, if possible, executes the instruction again and finds
    /// the question settled.
    fn decide(&mut self, st: &mut State, c: &E) -> X<bool> {
        if let Some(k) = st.simp(c).as_const() {
            return Ok(k == 1);
        }
        let (side, other) = self.branch(st, c)?;
        if let Some(o) = other {
            self.push(o);
        }
        Ok(side)
    }
    /// The file with the given name; forks on symbolic names.
    fn lookup(&mut self, st: &mut State, p: u64) -> X<Option<usize>> {
        let mut path = vec![];
        loop {
            let b = self.bytes(st, p + path.len() as u64, 1)?.pop().unwrap();
            if self.decide(st, &bin(Op::Eq, &b, &konst(0, 8)))? {
                break;
            }
            path.push(b);
        }
        for i in 0..st.os.files.len() {
            let name = st.os.files[i].name.clone();
            if name.len() != path.len() {
                continue;
            }
            let mut c = tru();
            for (x, y) in name.iter().zip(&path) {
                c = bin(Op::And, &c, &bin(Op::Eq, x, y));
            }
            if self.decide(st, &c)? {
                return Ok(Some(i));
            }
        }
        Ok(None)
    }

    fn errno(&self, st: &mut State) -> u64 {
        // a thread-local word kept in the overlay of globals under a reserved id
        const ID: u32 = 0xfff_fff0;
        if !st.mem.globals.contains_key(&ID) {
            st.mem.globals.insert(ID, Arc::new(Obj::new(4, 0)));
        }
        mkaddr(REG_GLOBAL, ID as u64)
    }
    fn set_errno(&mut self, st: &mut State, v: u64) -> X<()> {
        let a = self.errno(st);
        self.store(st, &V::C(a), &Ty::Int(32), &V::C(v))
    }

    // --------------------------------------------------------------- runs

    fn finish(&mut self, st: State, ev: Event) {
        let sh = self.sh;
        if ev == Event::Infeasible {
            *sh.ends.lock().unwrap().entry("assumed away".into()).or_insert(0) += 1;
            return;
        }
        let key = match &ev {
            Event::Ok => "ok".to_string(),
            Event::Exit(c) => format!("exit {}", c),
            Event::Fail(c) => format!("fail {}", c),
            Event::Panic(n) => format!("panic {}", n),
            Event::Unsupported(n) => format!("unsupported {} in {}", n, st.top.f.name),
            e => format!("{:?}", e).chars().take(60).collect(),
        };
        *sh.ends.lock().unwrap().entry(key).or_insert(0) += 1;
        for i in 0..4 {
            if st.reach[i] != 0 {
                sh.reach[i].fetch_or(st.reach[i], Relaxed);
            }
        }
        let mk_found = |ev: Event| {
            let get = |mut n: Option<Arc<ObsNode>>| {
                let mut o = vec![];
                while let Some(x) = n {
                    o.push(eval(&x.val, &st.model[..]));
                    n = x.prev.clone();
                }
                o.reverse();
                o
            };
            Found {
                event: ev,
                model: st.model[..st.nvars].to_vec(),
                obs: get(st.obs.clone()),
                out: get(st.out[0].clone()).into_iter().map(|x| x as u8).collect(),
                at: st.stack_names(sh),
            }
        };
        match ev {
            Event::Ok | Event::Exit(_) => {
                // sample by hash of the model, so that the choice does not depend on scheduling
                let mut h = sh.seed as u128;
                for b in st.model[..st.nvars].iter() {
                    h = hash_mix(h, *b as u128);
                }
                let h = h as u64;
                let mut s = sh.samples.lock().unwrap();
                if s.len() < sh.nsamples || h < s.last().unwrap().0 {
                    let f = mk_found(ev);
                    let p = s.partition_point(|x| x.0 < h);
                    s.insert(p, (h, f));
                    s.truncate(sh.nsamples);
                }
            }
            ev => {
                let f = mk_found(ev.clone());
                let mut l = sh.found.lock().unwrap();
                if l.len() < 200 {
                    l.push(f);
                }
                let bad = l.iter().filter(|x| !matches!(x.event, Event::Unsupported(_))).count();
                if bad >= sh.max_found {
                    sh.stop.store(true, Relaxed);
                    sh.cv.notify_all();
                }
            }
        }
    }

    fn run(&mut self, mut st: State) {
        loop {
            st.steps += 1;
            self.steps += 1;
            self.spin += 1;
            if self.spin & 0xfff == 0 {
                if self.sh.stop.load(Relaxed) {
                    return;
                }
                if Instant::now() > self.sh.deadline {
                    self.sh.timed_out.store(true, Relaxed);
                    self.sh.stop.store(true, Relaxed);
                    self.sh.cv.notify_all();
                    return;
                }
            }
            if st.steps > self.sh.max_steps {
                return self.finish(st, Event::Hang);
            }
            match self.step(&mut st) {
                Ok(Flow::Next) => st.top.ip += 1,
                Ok(Flow::Jumped) => {}
                // the end of a program run inside the harness
                Err(Stop::End(Event::Exit(c))) if st.os.run.is_some() => self.leave(&mut st, c),
                Err(Stop::End(Event::Panic(n))) if st.os.run.is_some() => {
                    for b in n.bytes() {
                        st.out[1] = Some(Arc::new(ObsNode { prev: st.out[1].take(), val: konst(b as u128, 8) }));
                    }
                    self.leave(&mut st, 101);
                }
                Err(Stop::End(e)) => return self.finish(st, e),
            }
        }
    }

    pub fn work(&mut self) {
        loop {
            let st = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) {
                        return;
                    }
                    if let Some(s) = q.pop() {
                        self.sh.busy.fetch_add(1, Relaxed);
                        break s;
                    }
                    if self.sh.busy.load(Relaxed) == 0 {
                        self.sh.cv.notify_all();
                        return;
                    }
                    q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
                }
            };
            // an error in the executor itself leaves this path undecided
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.run(st)));
            if let Err(e) = r {
                let what = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                let what = format!("internal error: {}", what);
                *self.sh.ends.lock().unwrap().entry(what.clone()).or_insert(0) += 1;
                let mut l = self.sh.found.lock().unwrap();
                if l.len() < 200 {
                    l.push(Found { event: Event::Unsupported(what), model: vec![], obs: vec![], out: vec![], at: vec![] });
                }
            }
            self.sh.steps.fetch_add(self.steps, Relaxed);
            self.steps = 0;
            let _q = self.sh.queue.lock().unwrap();
            self.sh.busy.fetch_sub(1, Relaxed);
            self.sh.cv.notify_all();
        }
    }
}

pub fn initial(sh: &Shared, job: &Job) -> Result<State, String> {
    let d = sh.m.funcs.get(job.entry.as_str()).ok_or(format!("no entry {}", job.entry))?;
    let f = sh.m.func(d)?;
    sh.touched[d.id - 1].store(true, Relaxed);
    let mut regs = vec![V::U; f.nregs as usize];
    for (i, p) in f.params.iter().enumerate() {
        regs[*p as usize] = V::C(*job.args.get(i).unwrap_or(&0));
    }
    Ok(State {
        low: vec![],
        top: Frame { f, regs, blk: 0, ip: 0, ret: NONE, sp: 0 },
        mem: Mem::default(),
        groups: vec![],
        known: VarSet::EMPTY,
        model: Box::new([0; NVARS]),
        nvars: 0,
        obs: None,
        out: [None, None],
        reach: [0; 4],
        steps: 0,
        conc: 0,
        os: Os::default(),
        limit: 1 << 30,
    })
}
