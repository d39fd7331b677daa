//! Hash-consed-by-hash bit-vector expressions over symbolic input bytes.
use crate::fp::{fold_f, of, Fo};
use std::collections::HashMap;
use std::sync::Arc;

pub const NVARS: usize = 512;
pub const UNDEF_VAR: usize = 511;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct VarSet(pub [u64; 8]);
impl VarSet {
    pub const EMPTY: VarSet = VarSet([0; 8]);
    pub fn one(i: usize) -> VarSet {
        let mut s = [0; 8];
        s[i / 64] = 1 << (i % 64);
        VarSet(s)
    }
    #[inline]
    pub fn union(&self, o: &VarSet) -> VarSet {
        let mut s = self.0;
        for i in 0..8 {
            s[i] |= o.0[i];
        }
        VarSet(s)
    }
    #[inline]
    pub fn intersects(&self, o: &VarSet) -> bool {
        for i in 0..8 {
            if self.0[i] & o.0[i] != 0 {
                return true;
            }
        }
        false
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 != 0
    }
    pub fn iter(&self) -> impl Iterator<Item = usize> + '_ {
        (0..NVARS).filter(move |i| self.has(*i))
    }
    pub fn is_empty(&self) -> bool {
        self.0.iter().all(|x| *x == 0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
#[repr(u8)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    Extract, // c = low bit
    Concat,  // args[0] = high part, args[1] = low part
    Ite,
    Table, // table[args[0]], args[0] is 64 bits wide
    F,     // floating point, c = fp::Fo
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub c: u128,
    pub args: Vec<E>,
    pub table: Option<Arc<Vec<u128>>>,
    pub thash: u128,
    pub hash: u128,
    pub vars: VarSet,
    pub size: u32,
    pub fp: bool,
}
pub type E = Arc<Node>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}

fn mix(h: u64, v: u64, k: u64) -> u64 {
    let m = ((h ^ v) as u128).wrapping_mul((k | 1) as u128 ^ (0x9E37_79B9_7F4A_7C15u128 << 1));
    ((m >> 64) as u64 ^ m as u64).wrapping_add(v.rotate_left(23)).wrapping_mul(0xD6E8_FEB8_6659_FD93)
}
pub fn hash_mix(h: u128, v: u128) -> u128 {
    let (mut a, mut b) = (h as u64, (h >> 64) as u64);
    a = mix(a, v as u64, 0xA076_1D64_78BD_642F);
    a = mix(a, (v >> 64) as u64, 0xE703_7ED1_A0B4_28DB);
    b = mix(b, (v >> 64) as u64, 0x8EBC_6AF0_9C88_C6E3);
    b = mix(b ^ a.rotate_left(17), v as u64, 0x5899_65CC_7537_4CC3);
    (a as u128) | ((b as u128) << 64)
}

fn node(op: Op, w: u32, c: u128, args: Vec<E>, table: Option<Arc<Vec<u128>>>) -> E {
    let mut h = hash_mix(0x1234_5678_9abc_def0_0fed_cba9_8765_4321, (op as u128) | ((w as u128) << 8));
    h = hash_mix(h, c);
    let mut vars = VarSet::EMPTY;
    let mut size = 1u32;
    let mut fp = op == Op::F;
    for a in &args {
        fp |= a.fp;
        h = hash_mix(h, a.hash);
        vars = vars.union(&a.vars);
        size = size.saturating_add(a.size);
    }
    let mut thash = 0;
    if let Some(t) = &table {
        thash = 1;
        for x in t.iter() {
            thash = hash_mix(thash, *x);
        }
        h = hash_mix(h, thash);
    }
    if op == Op::Var {
        vars = VarSet::one(c as usize);
    }
    Arc::new(Node { op, w, c, args, table, thash, hash: h, vars, size, fp })
}

pub fn fnode(o: Fo, w: u32, args: &[E]) -> E {
    let k = |i: usize| args.get(i).map_or(Some(0), |a| a.as_const());
    if let (Some(a), Some(b)) = (k(0), k(1)) {
        return konst(fold_f(o, w, args[0].w, a, b), w);
    }
    node(Op::F, w, o as u128, args.to_vec(), None)
}

pub fn konst(v: u128, w: u32) -> E {
    node(Op::Const, w, v & mask(w), vec![], None)
}
pub fn var(i: usize) -> E {
    node(Op::Var, 8, i as u128, vec![], None)
}
pub fn tru() -> E {
    konst(1, 1)
}
impl Node {
    pub fn as_const(&self) -> Option<u128> {
        if self.op == Op::Const {
            Some(self.c)
        } else {
            None
        }
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    // w: width of the operands
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn bin(op: Op, a: &E, b: &E) -> E {
    let w = a.w;
    debug_assert_eq!(a.w, b.w);
    if let (Some(x), Some(y)) = (a.as_const(), b.as_const()) {
        return konst(fold(op, w, x, y), if is_cmp(op) { 1 } else { w });
    }
    // constants to the right for commutative operators
    if a.as_const().is_some() && matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let m = mask(w);
    let same = a.hash == b.hash;
    if let Some(k) = b.as_const() {
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if k == 0 => return a.clone(),
            Op::And | Op::Mul if k == 0 => return konst(0, w),
            Op::And if k == m => return a.clone(),
            Op::Or if k == m => return konst(m, w),
            Op::Mul | Op::UDiv if k == 1 => return a.clone(),
            Op::Ult if k == 0 => return konst(0, 1),
            Op::Ule if k == m => return konst(1, 1),
            Op::Ult if k == 1 => return bin(Op::Eq, a, &konst(0, w)),
            Op::Ule if k == 0 => return bin(Op::Eq, a, &konst(0, w)),
            Op::Shl | Op::LShr if k >= w as u128 => return konst(0, w),
            _ => {}
        }
        if op == Op::Sub {
            return bin(Op::Add, a, &konst(0u128.wrapping_sub(k) & m, w));
        }
        if op == Op::Add && a.op == Op::Add {
            if let Some(k2) = a.args[1].as_const() {
                return bin(Op::Add, &a.args[0], &konst(k.wrapping_add(k2) & m, w));
            }
        }
        if op == Op::And && a.op == Op::And {
            if let Some(k2) = a.args[1].as_const() {
                return bin(Op::And, &a.args[0], &konst(k & k2, w));
            }
        }
        if op == Op::And {
            // low mask of 2^n-1 = zext of an extract
            if k != 0 && (k & (k + 1)) == 0 {
                let n = 128 - k.leading_zeros();
                if n < w {
                    return zext(&extract(a, 0, n), w);
                }
            }
            if a.op == Op::ZExt {
                let iw = a.args[0].w;
                return zext(&bin(Op::And, &a.args[0], &konst(k & mask(iw), iw)), w);
            }
        }
        if op == Op::Xor && a.op == Op::Xor {
            if let Some(k2) = a.args[1].as_const() {
                return bin(Op::Xor, &a.args[0], &konst(k ^ k2, w));
            }
        }
        if matches!(op, Op::Or | Op::Xor) && a.op == Op::ZExt {
            let iw = a.args[0].w;
            if k >> iw == 0 {
                return zext(&bin(op, &a.args[0], &konst(k, iw)), w);
            }
        }
        if op == Op::LShr {
            let n = k as u32;
            return zext(&extract(a, n, w - n), w);
        }
        if op == Op::Shl {
            let n = k as u32;
            return concat(&extract(a, 0, w - n), &konst(0, n));
        }
        if op == Op::Eq {
            if w == 1 {
                return if k == 1 { a.clone() } else { not(a) };
            }
            match a.op {
                Op::ZExt => {
                    let iw = a.args[0].w;
                    if k >> iw != 0 {
                        return konst(0, 1);
                    }
                    return bin(Op::Eq, &a.args[0], &konst(k, iw));
                }
                Op::SExt => {
                    let iw = a.args[0].w;
                    let t = k & mask(iw);
                    if (sext(t, iw) as u128) & m != k {
                        return konst(0, 1);
                    }
                    return bin(Op::Eq, &a.args[0], &konst(t, iw));
                }
                Op::Concat => {
                    let lw = a.args[1].w;
                    let hi = bin(Op::Eq, &a.args[0], &konst(k >> lw, w - lw));
                    if hi.as_const() == Some(0) {
                        return hi;
                    }
                    let lo = bin(Op::Eq, &a.args[1], &konst(k & mask(lw), lw));
                    return bin(Op::And, &hi, &lo);
                }
                Op::Add => {
                    if let Some(k2) = a.args[1].as_const() {
                        return bin(Op::Eq, &a.args[0], &konst(k.wrapping_sub(k2) & m, w));
                    }
                }
                Op::Xor => {
                    if let Some(k2) = a.args[1].as_const() {
                        return bin(Op::Eq, &a.args[0], &konst(k ^ k2, w));
                    }
                }
                Op::Ite => {
                    let (x, y) = (&a.args[1], &a.args[2]);
                    if x.as_const().is_some() || y.as_const().is_some() {
                        let ex = bin(Op::Eq, x, b);
                        let ey = bin(Op::Eq, y, b);
                        return ite(&a.args[0], &ex, &ey);
                    }
                }
                Op::Table => {
                    let t = a.table.as_ref().unwrap();
                    if !t.contains(&k) {
                        return konst(0, 1);
                    }
                }
                _ => {}
            }
        }
        if matches!(op, Op::Ult | Op::Ule) && a.op == Op::ZExt {
            let iw = a.args[0].w;
            if k > mask(iw) {
                return konst(1, 1);
            }
            return bin(op, &a.args[0], &konst(k, iw));
        }
        if matches!(op, Op::Slt | Op::Sle) && a.op == Op::ZExt {
            // non-negative left operand
            if sext(k, w) < 0 {
                return konst(0, 1);
            }
            return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
        }
        if op == Op::Slt && k == 0 {
            return extract(a, w - 1, 1);
        }
        if matches!(op, Op::Ult | Op::Ule | Op::Slt | Op::Sle) && a.op == Op::Ite {
            let (x, y) = (&a.args[1], &a.args[2]);
            if x.as_const().is_some() || y.as_const().is_some() {
                let ex = bin(op, x, b);
                let ey = bin(op, y, b);
                return ite(&a.args[0], &ex, &ey);
            }
        }
    }
    if let Some(k) = a.as_const() {
        match op {
            Op::Ult if k == m => return konst(0, 1),
            Op::Ule if k == 0 => return konst(1, 1),
            // k < b  <=>  !(b <= k)
            Op::Ult => return not(&bin(Op::Ule, b, a)),
            Op::Ule => return not(&bin(Op::Ult, b, a)),
            Op::Slt => return not(&bin(Op::Sle, b, a)),
            Op::Sle => return not(&bin(Op::Slt, b, a)),
            Op::Shl | Op::LShr if k == 0 => return konst(0, w),
            _ => {}
        }
    }
    if same {
        match op {
            Op::Sub | Op::Xor => return konst(0, w),
            Op::And | Op::Or => return a.clone(),
            Op::Eq | Op::Ule | Op::Sle => return konst(1, 1),
            Op::Ult | Op::Slt => return konst(0, 1),
            _ => {}
        }
    }
    if w == 1 {
        match op {
            Op::And | Op::Or => {
                // a & !a, a | !a
                if is_not_of(a, b) {
                    return konst((op == Op::Or) as u128, 1);
                }
            }
            Op::Eq => return not(&bin(Op::Xor, a, b)),
            _ => {}
        }
    }
    if op == Op::Or && a.op != Op::Const && b.op != Op::Const {
        // disjoint concat-style or: zext(x) | (y << n)
        if let Some(r) = or_concat(a, b).or_else(|| or_concat(b, a)) {
            return r;
        }
    }
    if op == Op::Eq && a.op == Op::ZExt && b.op == Op::ZExt && a.args[0].w == b.args[0].w {
        return bin(Op::Eq, &a.args[0], &b.args[0]);
    }
    node(op, if is_cmp(op) { 1 } else { w }, 0, vec![a.clone(), b.clone()], None)
}

/// `hi` is Concat(x, 0_n) and `lo` is zero above bit n.
fn or_concat(hi: &E, lo: &E) -> Option<E> {
    let w = hi.w;
    let (h, n) = match hi.op {
        Op::Concat if hi.args[1].as_const() == Some(0) => (hi.args[0].clone(), hi.args[1].w),
        Op::ZExt if hi.args[0].op == Op::Concat && hi.args[0].args[1].as_const() == Some(0) => {
            let c = &hi.args[0];
            let n = c.args[1].w;
            (zext(&c.args[0], w - n), n)
        }
        _ => return None,
    };
    if lo.op == Op::ZExt && lo.args[0].w <= n {
        return Some(concat(&h, &extract(lo, 0, n)));
    }
    None
}

fn is_not_of(a: &E, b: &E) -> bool {
    let f = |x: &E, y: &E| x.op == Op::Xor && x.args[1].as_const() == Some(1) && x.args[0].hash == y.hash;
    f(a, b) || f(b, a)
}

pub fn not(a: &E) -> E {
    debug_assert_eq!(a.w, 1);
    if let Some(k) = a.as_const() {
        return konst(k ^ 1, 1);
    }
    if a.op == Op::Xor && a.args[1].as_const() == Some(1) {
        return a.args[0].clone();
    }
    // plain node: bin() would fold back
    node(Op::Xor, 1, 0, vec![a.clone(), konst(1, 1)], None)
}

pub fn zext(a: &E, w: u32) -> E {
    if a.w == w {
        return a.clone();
    }
    if let Some(k) = a.as_const() {
        return konst(k, w);
    }
    if a.op == Op::ZExt {
        return zext(&a.args[0], w);
    }
    if a.op == Op::Concat && a.args[0].as_const() == Some(0) {
        return zext(&a.args[1], w);
    }
    node(Op::ZExt, w, 0, vec![a.clone()], None)
}
pub fn sign_ext(a: &E, w: u32) -> E {
    if a.w == w {
        return a.clone();
    }
    if let Some(k) = a.as_const() {
        return konst(sext(k, a.w) as u128, w);
    }
    if a.op == Op::ZExt {
        return zext(&a.args[0], w);
    }
    node(Op::SExt, w, 0, vec![a.clone()], None)
}
pub fn extract(a: &E, lo: u32, w: u32) -> E {
    if lo == 0 && w == a.w {
        return a.clone();
    }
    match a.op {
        Op::Const => return konst(a.c >> lo, w),
        Op::Extract => return extract(&a.args[0], lo + a.c as u32, w),
        Op::Concat => {
            let lw = a.args[1].w;
            if lo >= lw {
                return extract(&a.args[0], lo - lw, w);
            }
            if lo + w <= lw {
                return extract(&a.args[1], lo, w);
            }
            let h = extract(&a.args[0], 0, lo + w - lw);
            let l = extract(&a.args[1], lo, lw - lo);
            return concat(&h, &l);
        }
        Op::ZExt => {
            let iw = a.args[0].w;
            if lo >= iw {
                return konst(0, w);
            }
            if lo + w <= iw {
                return extract(&a.args[0], lo, w);
            }
            return zext(&extract(&a.args[0], lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = a.args[0].w;
            if lo + w <= iw {
                return extract(&a.args[0], lo, w);
            }
            if lo == 0 {
                return sign_ext(&a.args[0], w);
            }
        }
        Op::And | Op::Or | Op::Xor => {
            if a.args[1].as_const().is_some() || a.size < 16 {
                return bin(a.op, &extract(&a.args[0], lo, w), &extract(&a.args[1], lo, w));
            }
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            return bin(a.op, &extract(&a.args[0], 0, w), &extract(&a.args[1], 0, w));
        }
        Op::Ite => {
            if a.args[1].as_const().is_some() || a.args[2].as_const().is_some() {
                return ite(&a.args[0], &extract(&a.args[1], lo, w), &extract(&a.args[2], lo, w));
            }
        }
        Op::Table => {
            let t: Vec<u128> = a.table.as_ref().unwrap().iter().map(|x| (x >> lo) & mask(w)).collect();
            return table(Arc::new(t), &a.args[0], w);
        }
        _ => {}
    }
    node(Op::Extract, w, lo as u128, vec![a.clone()], None)
}
pub fn concat(h: &E, l: &E) -> E {
    let w = h.w + l.w;
    if let (Some(x), Some(y)) = (h.as_const(), l.as_const()) {
        return konst((x << l.w) | y, w);
    }
    if h.as_const() == Some(0) {
        return zext(l, w);
    }
    if h.op == Op::Extract && l.op == Op::Extract && h.args[0].hash == l.args[0].hash && h.c == l.c + l.w as u128 {
        return extract(&l.args[0], l.c as u32, w);
    }
    // x ++ (y ++ z) with x, y adjacent extracts
    if l.op == Op::Concat {
        let y = &l.args[0];
        let hy = h.op == Op::Extract && y.op == Op::Extract && h.args[0].hash == y.args[0].hash && h.c == y.c + y.w as u128;
        let cc = h.as_const().is_some() && y.as_const().is_some();
        if hy || cc {
            return concat(&concat(h, y), &l.args[1]);
        }
    }
    // (zext x) ++ l  =  zext (x ++ l)
    if h.op == Op::ZExt {
        return zext(&concat(&h.args[0], l), w);
    }
    if h.op == Op::Concat {
        // right-assoc normal form
        let lo = concat(&h.args[1], l);
        return concat(&h.args[0], &lo);
    }
    node(Op::Concat, w, 0, vec![h.clone(), l.clone()], None)
}
pub fn ite(c: &E, a: &E, b: &E) -> E {
    if let Some(k) = c.as_const() {
        return if k == 1 { a.clone() } else { b.clone() };
    }
    if a.hash == b.hash {
        return a.clone();
    }
    if c.op == Op::Xor && c.args[1].as_const() == Some(1) {
        return ite(&c.args[0], b, a);
    }
    if a.w == 1 {
        match (a.as_const(), b.as_const()) {
            (Some(1), Some(0)) => return c.clone(),
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, &not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, &not(c), a),
            _ => {}
        }
    }
    node(Op::Ite, a.w, 0, vec![c.clone(), a.clone(), b.clone()], None)
}
pub fn table(t: Arc<Vec<u128>>, idx: &E, w: u32) -> E {
    if let Some(k) = idx.as_const() {
        return konst(t.get(k as usize).copied().unwrap_or(0), w);
    }
    if t.iter().all(|x| *x == t[0]) {
        return konst(t[0], w);
    }
    node(Op::Table, w, 0, vec![idx.clone()], Some(t))
}

pub fn eval(e: &E, model: &[u8]) -> u128 {
    if e.size < 24 {
        return eval_rec(e, model, &mut None);
    }
    eval_rec(e, model, &mut Some(HashMap::new()))
}
fn eval_rec(e: &E, m: &[u8], memo: &mut Option<HashMap<*const Node, u128>>) -> u128 {
    match e.op {
        Op::Const => return e.c,
        Op::Var => return m[e.c as usize] as u128,
        _ => {}
    }
    if let Some(mm) = memo {
        if let Some(v) = mm.get(&Arc::as_ptr(e)) {
            return *v;
        }
    }
    let r = match e.op {
        Op::ZExt => eval_rec(&e.args[0], m, memo),
        Op::SExt => (sext(eval_rec(&e.args[0], m, memo), e.args[0].w) as u128) & mask(e.w),
        Op::Extract => (eval_rec(&e.args[0], m, memo) >> e.c) & mask(e.w),
        Op::Concat => (eval_rec(&e.args[0], m, memo) << e.args[1].w) | eval_rec(&e.args[1], m, memo),
        Op::Ite => {
            if eval_rec(&e.args[0], m, memo) == 1 {
                eval_rec(&e.args[1], m, memo)
            } else {
                eval_rec(&e.args[2], m, memo)
            }
        }
        Op::Table => {
            let i = eval_rec(&e.args[0], m, memo) as usize;
            e.table.as_ref().unwrap().get(i).copied().unwrap_or(0)
        }
        Op::F => {
            let a = eval_rec(&e.args[0], m, memo);
            let b = e.args.get(1).map_or(0, |x| eval_rec(x, m, memo));
            fold_f(of(e.c), e.w, e.args[0].w, a, b)
        }
        _ => fold(e.op, e.args[0].w, eval_rec(&e.args[0], m, memo), eval_rec(&e.args[1], m, memo)),
    };
    if let Some(mm) = memo {
        mm.insert(Arc::as_ptr(e), r);
    }
    r
}

/// Replaces variables that are known to be constant.
pub fn subst(e: &E, known: &VarSet, model: &[u8], memo: &mut HashMap<*const Node, E>) -> E {
    if !e.vars.intersects(known) {
        return e.clone();
    }
    if e.op == Op::Var {
        return konst(model[e.c as usize] as u128, 8);
    }
    if let Some(r) = memo.get(&Arc::as_ptr(e)) {
        return r.clone();
    }
    let a: Vec<E> = e.args.iter().map(|x| subst(x, known, model, memo)).collect();
    let r = rebuild(e, &a);
    memo.insert(Arc::as_ptr(e), r.clone());
    r
}
fn rebuild(e: &E, a: &[E]) -> E {
    match e.op {
        Op::ZExt => zext(&a[0], e.w),
        Op::SExt => sign_ext(&a[0], e.w),
        Op::Extract => extract(&a[0], e.c as u32, e.w),
        Op::Concat => concat(&a[0], &a[1]),
        Op::Ite => ite(&a[0], &a[1], &a[2]),
        Op::Table => table(e.table.clone().unwrap(), &a[0], e.w),
        Op::F => fnode(of(e.c), e.w, a),
        Op::Xor if e.w == 1 && a[1].as_const() == Some(1) => not(&a[0]),
        _ => bin(e.op, &a[0], &a[1]),
    }
}

pub fn show(e: &E) -> String {
    match e.op {
        Op::Const => format!("{}", e.c),
        Op::Var => format!("b{}", e.c),
        Op::Extract => format!("{}[{}:{}]", show(&e.args[0]), e.c, e.w),
        _ => {
            let mut s = format!("({:?}", e.op);
            if matches!(e.op, Op::ZExt | Op::SExt) {
                s += &format!("{}", e.w);
            }
            for a in &e.args {
                s += " ";
                s += &show(a);
                if s.len() > 2000 {
                    s += "...";
                    break;
                }
            }
            s + ")"
        }
    }
}
