//! Z3 behind a small interface: is this conjunction satisfiable, and by which bytes?
use crate::fp::{nan, of, Fo};
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_void, CString};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};

type P = *mut c_void;
#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_del_context(c: P);
    fn Z3_del_config(c: P);
    fn Z3_set_error_handler(c: P, h: *const c_void);
    fn Z3_get_error_code(c: P) -> i32;
    fn Z3_mk_bv_sort(c: P, w: u32) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, t: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, n: u64, t: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, i: P, a: P, b: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: u32, a: P) -> P;
    fn Z3_mk_extract(c: P, hi: u32, lo: u32, a: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sort_32(c: P) -> P;
    fn Z3_mk_fpa_sort_64(c: P) -> P;
    fn Z3_mk_fpa_rne(c: P) -> P;
    fn Z3_mk_fpa_rna(c: P) -> P;
    fn Z3_mk_fpa_rtp(c: P) -> P;
    fn Z3_mk_fpa_rtn(c: P) -> P;
    fn Z3_mk_fpa_rtz(c: P) -> P;
    fn Z3_mk_fpa_to_fp_bv(c: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_float(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_signed(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_fp_unsigned(c: P, rm: P, a: P, s: P) -> P;
    fn Z3_mk_fpa_to_sbv(c: P, rm: P, a: P, w: u32) -> P;
    fn Z3_mk_fpa_to_ubv(c: P, rm: P, a: P, w: u32) -> P;
    fn Z3_mk_fpa_to_ieee_bv(c: P, a: P) -> P;
    fn Z3_mk_fpa_is_nan(c: P, a: P) -> P;
    fn Z3_mk_fpa_add(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sub(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_mul(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_div(c: P, rm: P, a: P, b: P) -> P;
    fn Z3_mk_fpa_sqrt(c: P, rm: P, a: P) -> P;
    fn Z3_mk_fpa_round_to_integral(c: P, rm: P, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_dec_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: u32);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, complete: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_version(a: *mut u32, b: *mut u32, c: *mut u32, d: *mut u32);
}

extern "C" fn on_error(_c: P, _e: i32) {}

#[derive(Default)]
pub struct Stats {
    pub queries: AtomicU64,
    pub sat: AtomicU64,
    pub unsat: AtomicU64,
    pub unknown: AtomicU64,
    pub cache_hits: AtomicU64,
    pub model_hits: AtomicU64,
    pub micros: AtomicU64,
    pub max_micros: AtomicU64,
}

#[derive(Clone)]
pub enum Ans {
    Sat(Arc<Vec<(u16, u8)>>),
    Unsat,
    Unknown,
}

const SHARDS: usize = 64;
pub struct Cache {
    shards: Vec<Mutex<HashMap<u128, Ans>>>,
}
impl Cache {
    pub fn new() -> Self {
        Cache { shards: (0..SHARDS).map(|_| Mutex::new(HashMap::new())).collect() }
    }
}

pub struct Solver {
    cfg: P,
    ctx: P,
    params: P,
    logic: P,
    fp_logic: P,
    asts: HashMap<u128, P>,
    vars: HashMap<usize, P>,
    stats: Arc<Stats>,
    cache: Arc<Cache>,
    timeout_ms: u32,
}

pub fn version() -> String {
    let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
    unsafe { Z3_get_version(&mut a, &mut b, &mut c, &mut d) };
    format!("{}.{}.{}", a, b, c)
}

impl Drop for Solver {
    fn drop(&mut self) {
        self.close();
    }
}

impl Solver {
    pub fn new(stats: Arc<Stats>, cache: Arc<Cache>, timeout_ms: u32) -> Solver {
        Solver {
            cfg: std::ptr::null_mut(),
            ctx: std::ptr::null_mut(),
            params: std::ptr::null_mut(),
            logic: std::ptr::null_mut(),
            fp_logic: std::ptr::null_mut(),
            asts: HashMap::new(),
            vars: HashMap::new(),
            stats,
            cache,
            timeout_ms,
        }
    }
    fn open(&mut self) {
        unsafe {
            self.cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(self.cfg, k.as_ptr(), v.as_ptr());
            self.ctx = Z3_mk_context(self.cfg);
            Z3_set_error_handler(self.ctx, on_error as *const c_void);
            self.params = Z3_mk_params(self.ctx);
            Z3_params_inc_ref(self.ctx, self.params);
            let t = CString::new("timeout").unwrap();
            let ts = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            Z3_params_set_uint(self.ctx, self.params, ts, self.timeout_ms);
            let l = CString::new("QF_BV").unwrap();
            self.logic = Z3_mk_string_symbol(self.ctx, l.as_ptr());
            let l = CString::new("QF_BVFP").unwrap();
            self.fp_logic = Z3_mk_string_symbol(self.ctx, l.as_ptr());
        }
        self.asts.clear();
        self.vars.clear();
    }
    fn close(&mut self) {
        if self.ctx.is_null() {
            return;
        }
        unsafe {
            Z3_params_dec_ref(self.ctx, self.params);
            Z3_del_context(self.ctx);
            Z3_del_config(self.cfg);
        }
        self.ctx = std::ptr::null_mut();
    }
    fn num(&mut self, v: u128, w: u32) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w);
            if w <= 64 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(format!("{}", v)).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }
    fn var(&mut self, i: usize) -> P {
        if let Some(p) = self.vars.get(&i) {
            return *p;
        }
        let p = unsafe {
            let t = CString::new(format!("b{}", i)).unwrap();
            let s = Z3_mk_string_symbol(self.ctx, t.as_ptr());
            Z3_mk_const(self.ctx, s, Z3_mk_bv_sort(self.ctx, 8))
        };
        self.vars.insert(i, p);
        p
    }
    /// Multiplexer tree over the bits of the index.
    fn mux(&mut self, t: &[u128], idx: P, bit: u32, base: usize, w: u32) -> (Option<u128>, P) {
        let span = 1usize << (bit + 1);
        let half = span / 2;
        // constant sub-range?
        let g = |i: usize| t.get(i).copied().unwrap_or(0);
        let first = g(base);
        let end = (base + span).min(t.len().max(base + 1));
        let mut all = (base..end).all(|i| g(i) == first);
        if end < base + span && first != 0 {
            all = false;
        }
        if all {
            return (Some(first), std::ptr::null_mut());
        }
        let (ka, a) = if bit == 0 { (Some(g(base)), std::ptr::null_mut()) } else { self.mux(t, idx, bit - 1, base, w) };
        let (kb, b) = if bit == 0 { (Some(g(base + 1)), std::ptr::null_mut()) } else { self.mux(t, idx, bit - 1, base + half, w) };
        let a = ka.map(|k| self.num(k, w)).unwrap_or(a);
        let b = kb.map(|k| self.num(k, w)).unwrap_or(b);
        unsafe {
            let c = Z3_mk_eq(self.ctx, Z3_mk_extract(self.ctx, bit, bit, idx), self.num(1, 1));
            (None, Z3_mk_ite(self.ctx, c, b, a))
        }
    }
    fn tr_f(&mut self, e: &E) -> P {
        let c = self.ctx;
        let a = self.tr(&e.args[0]);
        let aw = e.args[0].w;
        let b = e.args.get(1).map(|x| self.tr(x));
        unsafe {
            let sort = |w: u32| if w == 32 { Z3_mk_fpa_sort_32(c) } else { Z3_mk_fpa_sort_64(c) };
            let rne = Z3_mk_fpa_rne(c);
            let fl = |p: P| Z3_mk_fpa_to_fp_bv(c, p, sort(aw));
            let o = of(e.c);
            let r = match o {
                Fo::ToS => return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fl(a), e.w),
                Fo::ToU => return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fl(a), e.w),
                Fo::FromS => Z3_mk_fpa_to_fp_signed(c, rne, a, sort(e.w)),
                Fo::FromU => Z3_mk_fpa_to_fp_unsigned(c, rne, a, sort(e.w)),
                Fo::Cvt => Z3_mk_fpa_to_fp_float(c, rne, fl(a), sort(e.w)),
                Fo::Add => Z3_mk_fpa_add(c, rne, fl(a), fl(b.unwrap())),
                Fo::Sub => Z3_mk_fpa_sub(c, rne, fl(a), fl(b.unwrap())),
                Fo::Mul => Z3_mk_fpa_mul(c, rne, fl(a), fl(b.unwrap())),
                Fo::Div => Z3_mk_fpa_div(c, rne, fl(a), fl(b.unwrap())),
                Fo::Sqrt => Z3_mk_fpa_sqrt(c, rne, fl(a)),
                Fo::Rem => unreachable!(),
                Fo::Floor => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), fl(a)),
                Fo::Ceil => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), fl(a)),
                Fo::Trunc => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtz(c), fl(a)),
                Fo::Even => Z3_mk_fpa_round_to_integral(c, rne, fl(a)),
                Fo::Away => Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rna(c), fl(a)),
            };
            let d = self.num(nan(e.w), e.w);
            Z3_mk_ite(c, Z3_mk_fpa_is_nan(c, r), d, Z3_mk_fpa_to_ieee_bv(c, r))
        }
    }
    fn tr(&mut self, e: &E) -> P {
        if e.op == Op::Var {
            return self.var(e.c as usize);
        }
        if let Some(p) = self.asts.get(&e.hash) {
            return *p;
        }
        let c = self.ctx;
        let r = match e.op {
            Op::Const => self.num(e.c, e.w),
            Op::F => self.tr_f(e),
            Op::ZExt => {
                let a = self.tr(&e.args[0]);
                unsafe { Z3_mk_zero_ext(c, e.w - e.args[0].w, a) }
            }
            Op::SExt => {
                let a = self.tr(&e.args[0]);
                unsafe { Z3_mk_sign_ext(c, e.w - e.args[0].w, a) }
            }
            Op::Extract => {
                let a = self.tr(&e.args[0]);
                unsafe { Z3_mk_extract(c, e.c as u32 + e.w - 1, e.c as u32, a) }
            }
            Op::Ite => {
                let i = self.tr(&e.args[0]);
                let a = self.tr(&e.args[1]);
                let b = self.tr(&e.args[2]);
                let one = self.num(1, 1);
                unsafe { Z3_mk_ite(c, Z3_mk_eq(c, i, one), a, b) }
            }
            Op::Table => {
                let t = e.table.clone().unwrap();
                let idx = self.tr(&e.args[0]);
                let mut bits = 1;
                while (1usize << bits) < t.len() {
                    bits += 1;
                }
                let iw = e.args[0].w;
                let (idx, iw) = if iw < bits {
                    (unsafe { Z3_mk_zero_ext(c, bits - iw, idx) }, bits)
                } else {
                    (idx, iw)
                };
                let (k, p) = self.mux(&t, idx, bits - 1, 0, e.w);
                let inside = k.map(|k| self.num(k, e.w)).unwrap_or(p);
                if iw > bits {
                    // outside the table the value is 0 (the caller keeps the index inside)
                    let z = self.num(0, e.w);
                    let zi = self.num(0, iw - bits);
                    unsafe {
                        let hi = Z3_mk_extract(c, iw - 1, bits, idx);
                        Z3_mk_ite(c, Z3_mk_eq(c, hi, zi), inside, z)
                    }
                } else {
                    inside
                }
            }
            _ => {
                let a = self.tr(&e.args[0]);
                let b = self.tr(&e.args[1]);
                unsafe {
                    match e.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => {
                            let p = match e.op {
                                Op::Eq => Z3_mk_eq(c, a, b),
                                Op::Ult => Z3_mk_bvult(c, a, b),
                                Op::Ule => Z3_mk_bvule(c, a, b),
                                Op::Slt => Z3_mk_bvslt(c, a, b),
                                Op::Sle => Z3_mk_bvsle(c, a, b),
                                _ => unreachable!(),
                            };
                            let one = self.num(1, 1);
                            let zero = self.num(0, 1);
                            Z3_mk_ite(c, p, one, zero)
                        }
                    }
                }
            }
        };
        self.asts.insert(e.hash, r);
        r
    }
    /// Boolean form of a one-bit expression.
    fn trb(&mut self, e: &E) -> P {
        let c = self.ctx;
        match e.op {
            Op::Xor if e.args[1].as_const() == Some(1) => {
                let a = self.trb(&e.args[0]);
                unsafe { Z3_mk_not(c, a) }
            }
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let a = self.tr(&e.args[0]);
                let b = self.tr(&e.args[1]);
                unsafe {
                    match e.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
            }
            _ => {
                let a = self.tr(e);
                let one = self.num(1, 1);
                unsafe { Z3_mk_eq(c, a, one) }
            }
        }
    }

    /// Decides the conjunction.  Variables are renamed to their order of first
    /// occurrence so that the same question about other bytes is answered once.
    pub fn check(&mut self, cs: &[&E]) -> Ans {
        self.stats.queries.fetch_add(1, Relaxed);
        let mut ren: HashMap<usize, usize> = HashMap::new();
        let mut order: Vec<usize> = vec![];
        let mut key = 0x77u128;
        for e in cs {
            key = hash_mix(key, canon(e, &mut ren, &mut order));
        }
        let sh = (key as usize) % SHARDS;
        if let Some(a) = self.cache.shards[sh].lock().unwrap().get(&key) {
            self.stats.cache_hits.fetch_add(1, Relaxed);
            return match a {
                Ans::Sat(m) => Ans::Sat(Arc::new(m.iter().map(|(i, v)| (order[*i as usize] as u16, *v)).collect())),
                a => a.clone(),
            };
        }
        if self.asts.len() > 300_000 {
            self.close();
        }
        if self.ctx.is_null() {
            self.open();
        }
        let t0 = std::time::Instant::now();
        let ans = unsafe {
            let ps: Vec<P> = cs.iter().map(|e| self.trb(e)).collect();
            let s = Z3_mk_solver_for_logic(self.ctx, if cs.iter().any(|e| e.fp) { self.fp_logic } else { self.logic });
            Z3_solver_inc_ref(self.ctx, s);
            Z3_solver_set_params(self.ctx, s, self.params);
            for p in ps {
                Z3_solver_assert(self.ctx, s, p);
            }
            let r = Z3_solver_check(self.ctx, s);
            let a = if Z3_get_error_code(self.ctx) != 0 {
                Ans::Unknown
            } else {
                match r {
                    1 => {
                        let m = Z3_solver_get_model(self.ctx, s);
                        Z3_model_inc_ref(self.ctx, m);
                        let mut out = vec![];
                        for (k, i) in order.iter().enumerate() {
                            let p = self.var(*i);
                            let mut v: P = std::ptr::null_mut();
                            let mut u = 0u64;
                            Z3_model_eval(self.ctx, m, p, true, &mut v);
                            Z3_get_numeral_uint64(self.ctx, v, &mut u);
                            out.push((k as u16, u as u8));
                        }
                        Z3_model_dec_ref(self.ctx, m);
                        Ans::Sat(Arc::new(out))
                    }
                    -1 => Ans::Unsat,
                    _ => Ans::Unknown,
                }
            };
            Z3_solver_dec_ref(self.ctx, s);
            a
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.micros.fetch_add(us, Relaxed);
        self.stats.max_micros.fetch_max(us, Relaxed);
        match &ans {
            Ans::Sat(_) => self.stats.sat.fetch_add(1, Relaxed),
            Ans::Unsat => self.stats.unsat.fetch_add(1, Relaxed),
            Ans::Unknown => self.stats.unknown.fetch_add(1, Relaxed),
        };
        self.cache.shards[sh].lock().unwrap().insert(key, ans.clone());
        match ans {
            Ans::Sat(m) => Ans::Sat(Arc::new(m.iter().map(|(i, v)| (order[*i as usize] as u16, *v)).collect())),
            a => a,
        }
    }
}

fn canon(e: &E, ren: &mut HashMap<usize, usize>, order: &mut Vec<usize>) -> u128 {
    fn go(e: &E, ren: &mut HashMap<usize, usize>, order: &mut Vec<usize>, memo: &mut HashMap<*const Node, u128>) -> u128 {
        if e.vars.is_empty() {
            return e.hash;
        }
        if e.op == Op::Var {
            let n = ren.len();
            let i = *ren.entry(e.c as usize).or_insert_with(|| {
                order.push(e.c as usize);
                n
            });
            return hash_mix(0x5157, i as u128);
        }
        let big = e.size > 12;
        if big {
            if let Some(h) = memo.get(&Arc::as_ptr(e)) {
                return *h;
            }
        }
        let mut h = hash_mix(0x4242, (e.op as u128) | ((e.w as u128) << 8));
        h = hash_mix(h, e.c);
        for a in &e.args {
            let x = go(a, ren, order, memo);
            h = hash_mix(h, x);
        }
        if e.table.is_some() {
            h = hash_mix(h, e.thash);
        }
        if big {
            memo.insert(Arc::as_ptr(e), h);
        }
        h
    }
    let mut memo = HashMap::new();
    go(e, ren, order, &mut memo)
}
