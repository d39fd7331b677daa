//! Reference model: decoder and validator of WebAssembly 1.0 over plain bytes, written from the
//! standard. It uses fixed arrays only, and tables and flag accumulation instead of branches where
//! that keeps the number of symbolic paths low.
//!
//! Decoding failures return `None`. Validation failures clear `ok`.

use crate::rt;
use crate::tr::Tr;

pub const NONE: u8 = 0x40;
pub const I32: u8 = 0x7f;
pub const I64: u8 = 0x7e;
pub const F32: u8 = 0x7d;
pub const F64: u8 = 0x7c;
/// Operand of unknown type (stack-polymorphic code).
pub const ANY: u8 = 0;

// ---------------------------------------------------------------- instruction tables

pub const BAD: u8 = 0;
pub const UNREACHABLE: u8 = 1;
pub const NOP: u8 = 2;
pub const BLOCK: u8 = 3;
pub const IF: u8 = 4;
pub const ELSE: u8 = 5;
pub const END: u8 = 6;
pub const BR: u8 = 7;
pub const BRIF: u8 = 8;
pub const BRTABLE: u8 = 9;
pub const RETURN: u8 = 10;
pub const CALL: u8 = 11;
pub const CALLIND: u8 = 12;
pub const DROP: u8 = 13;
pub const SELECT: u8 = 14;
pub const LGET: u8 = 15;
pub const LSET: u8 = 16;
pub const LTEE: u8 = 17;
pub const GGET: u8 = 18;
pub const GSET: u8 = 19;
pub const LOAD: u8 = 20;
pub const STORE: u8 = 21;
pub const MSIZE: u8 = 22;
pub const MGROW: u8 = 23;
pub const CI32: u8 = 24;
pub const CI64: u8 = 25;
pub const CF32: u8 = 26;
pub const CF64: u8 = 27;
pub const UN: u8 = 28;
pub const BIN: u8 = 29;

const fn fill(mut t: [u8; 256], lo: usize, hi: usize, v: u8) -> [u8; 256] {
    let mut i = lo;
    while i <= hi {
        t[i] = v;
        i += 1;
    }
    t
}

const CLASS_C: [u8; 256] = class();
pub static CLASS: [u8; 256] = CLASS_C;
const fn class() -> [u8; 256] {
    let mut t = [BAD; 256];
    t[0x00] = UNREACHABLE;
    t[0x01] = NOP;
    t[0x02] = BLOCK;
    t[0x03] = BLOCK;
    t[0x04] = IF;
    t[0x05] = ELSE;
    t[0x0b] = END;
    t[0x0c] = BR;
    t[0x0d] = BRIF;
    t[0x0e] = BRTABLE;
    t[0x0f] = RETURN;
    t[0x10] = CALL;
    t[0x11] = CALLIND;
    t[0x1a] = DROP;
    t[0x1b] = SELECT;
    t[0x20] = LGET;
    t[0x21] = LSET;
    t[0x22] = LTEE;
    t[0x23] = GGET;
    t[0x24] = GSET;
    t = fill(t, 0x28, 0x35, LOAD);
    t = fill(t, 0x36, 0x3e, STORE);
    t[0x3f] = MSIZE;
    t[0x40] = MGROW;
    t[0x41] = CI32;
    t[0x42] = CI64;
    t[0x43] = CF32;
    t[0x44] = CF64;
    t[0x45] = UN; // i32.eqz
    t = fill(t, 0x46, 0x4f, BIN);
    t[0x50] = UN; // i64.eqz
    t = fill(t, 0x51, 0x66, BIN);
    t = fill(t, 0x67, 0x69, UN); // i32 clz ctz popcnt
    t = fill(t, 0x6a, 0x78, BIN);
    t = fill(t, 0x79, 0x7b, UN); // i64 clz ctz popcnt
    t = fill(t, 0x7c, 0x8a, BIN);
    t = fill(t, 0x8b, 0x91, UN); // f32 abs neg ceil floor trunc nearest sqrt
    t = fill(t, 0x92, 0x98, BIN);
    t = fill(t, 0x99, 0x9f, UN); // f64
    t = fill(t, 0xa0, 0xa6, BIN);
    t = fill(t, 0xa7, 0xbf, UN); // conversions
    t
}

// shapes of immediates
const S_NONE: u8 = 1;
const S_BLOCK: u8 = 2;
const S_ELSE: u8 = 3;
const S_END: u8 = 4;
const S_IDX: u8 = 5;
const S_TWO: u8 = 6;
const S_TABLE: u8 = 7;
const S_I32: u8 = 8;
const S_I64: u8 = 9;
const S_F32: u8 = 10;
const S_F64: u8 = 11;
static SHAPE: [u8; 256] = {
    let mut t = [0; 256];
    let mut i = 0;
    while i < 256 {
        t[i] = match CLASS_C[i] {
            BAD => 0,
            BLOCK | IF => S_BLOCK,
            ELSE => S_ELSE,
            END => S_END,
            BR | BRIF | CALL | LGET | LSET | LTEE | GGET | GSET | MSIZE | MGROW => S_IDX,
            CALLIND | LOAD | STORE => S_TWO,
            BRTABLE => S_TABLE,
            CI32 => S_I32,
            CI64 => S_I64,
            CF32 => S_F32,
            CF64 => S_F64,
            _ => S_NONE,
        };
        i += 1;
    }
    t
};

/// Operand type of a unary or binary numeric instruction, value type of a memory access.
pub static TIN: [u8; 256] = tin();
const fn tin() -> [u8; 256] {
    let mut t = [0; 256];
    t = fill(t, 0x45, 0x4f, I32);
    t = fill(t, 0x50, 0x5a, I64);
    t = fill(t, 0x5b, 0x60, F32);
    t = fill(t, 0x61, 0x66, F64);
    t = fill(t, 0x67, 0x78, I32);
    t = fill(t, 0x79, 0x8a, I64);
    t = fill(t, 0x8b, 0x98, F32);
    t = fill(t, 0x99, 0xa6, F64);
    t[0xa7] = I64;
    t[0xa8] = F32;
    t[0xa9] = F32;
    t[0xaa] = F64;
    t[0xab] = F64;
    t[0xac] = I32;
    t[0xad] = I32;
    t[0xae] = F32;
    t[0xaf] = F32;
    t[0xb0] = F64;
    t[0xb1] = F64;
    t[0xb2] = I32;
    t[0xb3] = I32;
    t[0xb4] = I64;
    t[0xb5] = I64;
    t[0xb6] = F64;
    t[0xb7] = I32;
    t[0xb8] = I32;
    t[0xb9] = I64;
    t[0xba] = I64;
    t[0xbb] = F32;
    t[0xbc] = F32;
    t[0xbd] = F64;
    t[0xbe] = I32;
    t[0xbf] = I64;
    // memory
    t[0x28] = I32;
    t[0x29] = I64;
    t[0x2a] = F32;
    t[0x2b] = F64;
    t = fill(t, 0x2c, 0x2f, I32);
    t = fill(t, 0x30, 0x35, I64);
    t[0x36] = I32;
    t[0x37] = I64;
    t[0x38] = F32;
    t[0x39] = F64;
    t[0x3a] = I32;
    t[0x3b] = I32;
    t = fill(t, 0x3c, 0x3e, I64);
    t
}

/// Result type of a unary or binary numeric instruction.
pub static TOUT: [u8; 256] = tout();
const fn tout() -> [u8; 256] {
    let mut t = [0; 256];
    t = fill(t, 0x45, 0x66, I32); // tests and comparisons
    t = fill(t, 0x67, 0x78, I32);
    t = fill(t, 0x79, 0x8a, I64);
    t = fill(t, 0x8b, 0x98, F32);
    t = fill(t, 0x99, 0xa6, F64);
    t = fill(t, 0xa7, 0xab, I32);
    t = fill(t, 0xac, 0xb1, I64);
    t = fill(t, 0xb2, 0xb6, F32);
    t = fill(t, 0xb7, 0xbb, F64);
    t[0xbc] = I32;
    t[0xbd] = I64;
    t[0xbe] = F32;
    t[0xbf] = F64;
    t
}

/// Largest alignment exponent of a memory access.
pub static ALIGN: [u8; 256] = align();
const fn align() -> [u8; 256] {
    let mut t = [0; 256];
    t[0x28] = 2;
    t[0x29] = 3;
    t[0x2a] = 2;
    t[0x2b] = 3;
    t[0x2c] = 0;
    t[0x2d] = 0;
    t[0x2e] = 1;
    t[0x2f] = 1;
    t[0x30] = 0;
    t[0x31] = 0;
    t[0x32] = 1;
    t[0x33] = 1;
    t[0x34] = 2;
    t[0x35] = 2;
    t[0x36] = 2;
    t[0x37] = 3;
    t[0x38] = 2;
    t[0x39] = 3;
    t[0x3a] = 0;
    t[0x3b] = 1;
    t[0x3c] = 0;
    t[0x3d] = 1;
    t[0x3e] = 2;
    t
}

/// 1 for value types, 2 for the empty block type.
static VT: [u8; 256] = {
    let mut t = fill([0; 256], 0x7c, 0x7f, 1);
    t[NONE as usize] = 2;
    t
};

// ---------------------------------------------------------------- primitive decoders

pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
    pub end: usize,
}

impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Rd { b, p: 0, end: b.len() }
    }
    pub fn u8(&mut self) -> Option<u8> {
        if self.p < self.end {
            self.p += 1;
            Some(self.b[self.p - 1])
        } else {
            None
        }
    }
    /// Unsigned LEB128, any amount of zero padding.
    #[inline(never)]
    pub fn leb(&mut self, bits: u32) -> Option<u64> {
        let mut v = 0u64;
        let mut over = false;
        let mut sh = 0;
        loop {
            let b = self.u8()?;
            let p = (b & 0x7f) as u64;
            if sh < bits {
                v |= p << sh;
                if sh + 7 > bits {
                    over |= (p >> (bits - sh)) != 0;
                }
                sh += 7;
            } else {
                over |= p != 0;
            }
            if b < 0x80 {
                break;
            }
        }
        if over {
            None
        } else {
            Some(v)
        }
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.leb(32).map(|x| x as u32)
    }
    /// Signed LEB128, any amount of sign padding.
    #[inline(never)]
    pub fn sleb(&mut self, bits: u32) -> Option<i64> {
        let mut v = 0u64;
        let mut top = 0u8;
        let mut over = false;
        let mut sh = 0;
        loop {
            let b = self.u8()?;
            let p = b & 0x7f;
            if sh < bits {
                v |= (p as u64) << sh;
                if sh + 7 >= bits {
                    // the sign bit and everything above it must agree
                    let k = bits - sh - 1;
                    let hi = p >> k;
                    let all = 0x7fu8 >> k;
                    over |= (hi != 0) & (hi != all);
                    top = if hi & 1 != 0 { 0x7f } else { 0 };
                }
                sh += 7;
                if b < 0x80 {
                    if sh < bits && p & 0x40 != 0 {
                        v |= !0u64 << sh;
                    } else if sh >= bits && bits < 64 && top != 0 {
                        v |= !0u64 << bits;
                    }
                    break;
                }
            } else {
                over |= p != top;
                if b < 0x80 {
                    if bits < 64 && top != 0 {
                        v |= !0u64 << bits;
                    }
                    break;
                }
            }
        }
        if over {
            None
        } else {
            Some(v as i64)
        }
    }
    pub fn fixed(&mut self, n: usize) -> Option<u64> {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.u8()? as u64) << (8 * i);
        }
        Some(v)
    }
    /// Name: returns its position and length.
    pub fn name(&mut self, t: &mut Tr) -> Option<(usize, usize)> {
        let n = self.u32()? as usize;
        if n > self.end - self.p {
            return None;
        }
        let at = self.p;
        t.p(n as u64);
        for i in 0..n {
            t.p(self.b[at + i] as u64);
        }
        self.p += n;
        if !utf8(&self.b[at..at + n]) {
            return None;
        }
        Some((at, n))
    }
}

const fn u8len() -> [u8; 256] {
    let mut t = [0; 256];
    t = fill(t, 0, 0x7f, 1);
    t = fill(t, 0xc2, 0xdf, 2);
    t = fill(t, 0xe0, 0xef, 3);
    t = fill(t, 0xf0, 0xf4, 4);
    t
}
static ULEN: [u8; 256] = u8len();
static ULO: [u8; 256] = {
    let mut t = [0x80; 256];
    t[0xe0] = 0xa0;
    t[0xf0] = 0x90;
    t
};
static UHI: [u8; 256] = {
    let mut t = [0xbf; 256];
    t[0xed] = 0x9f;
    t[0xf4] = 0x8f;
    t
};

/// Well-formed UTF-8 (Unicode table 3-7).
#[inline(never)]
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    let mut ok = true;
    while i < s.len() {
        let b = s[i];
        let n = ULEN[b as usize] as usize;
        if n == 0 || i + n > s.len() {
            return false;
        }
        if n >= 2 {
            ok &= (s[i + 1] >= ULO[b as usize]) & (s[i + 1] <= UHI[b as usize]);
        }
        for k in 2..n {
            ok &= s[i + k] & 0xc0 == 0x80;
        }
        i += n;
    }
    ok
}

// ---------------------------------------------------------------- module

#[derive(Clone, Copy)]
pub struct Ft {
    pub np: usize,
    pub p: [u8; NP],
    pub nr: usize,
    pub r: [u8; NP],
}

#[derive(Clone, Copy)]
pub struct Lim {
    pub has: bool,
    pub min: u32,
    pub max: u32,
}

#[derive(Clone, Copy)]
struct Frame {
    label: u8,
    out: u8,
    height: usize,
    dead: bool,
}

pub const NP: usize = 24;
pub const NT: usize = 12;
pub const NF: usize = 136;
pub const NG: usize = 12;
pub const NX: usize = 16;
pub const NS: usize = 160;
pub const NB: usize = 72;
pub const NR: usize = 64;

pub struct Mod {
    pub ok: bool,
    /// leave out functions with more locals than this
    pub bound: u64,
    /// decode only: `ok` means nothing
    pub syntax: bool,
    pub t: Tr,
    pub types: [Ft; NT],
    pub ntypes: usize,
    /// type indices of functions, imports first
    pub funcs: [u32; NF],
    pub nfuncs: usize,
    pub nifuncs: usize,
    pub tables: [Lim; 8],
    pub ntables: usize,
    pub mems: [Lim; 8],
    pub nmems: usize,
    /// (value type, mutability)
    pub globals: [(u8, u8); NG],
    pub nglobals: usize,
    pub niglobals: usize,
    /// (kind, index in its space)
    pub imports: [(u8, usize); NX],
    pub nimports: usize,
    pub exports: [(u8, u32); NX],
    pub names: [(usize, usize); NX],
    pub nexports: usize,
    // function being checked
    runs: [(u64, u8); NR],
    nruns: usize,
    ret: u8,
    // validation stacks
    st: [u8; NS],
    sp: usize,
    fr: [Frame; NB],
    fp: usize,
}

const L0: Lim = Lim { has: false, min: 0, max: 0 };

fn cap(c: bool) {
    if !c {
        rt::fail(rt::CAPACITY);
    }
}

impl Mod {
    pub fn new() -> Self {
        Mod {
            ok: true,
            bound: !0,
            syntax: false,
            t: Tr::new(),
            types: [Ft { np: 0, p: [0; NP], nr: 0, r: [0; NP] }; NT],
            ntypes: 0,
            funcs: [0; NF],
            nfuncs: 0,
            nifuncs: 0,
            tables: [L0; 8],
            ntables: 0,
            mems: [L0; 8],
            nmems: 0,
            globals: [(0, 0); NG],
            nglobals: 0,
            niglobals: 0,
            imports: [(0, 0); NX],
            nimports: 0,
            exports: [(0, 0); NX],
            names: [(0, 0); NX],
            nexports: 0,
            runs: [(0, 0); NR],
            nruns: 0,
            ret: NONE,
            st: [0; NS],
            sp: 0,
            fr: [Frame { label: 0, out: 0, height: 0, dead: false }; NB],
            fp: 0,
        }
    }

    pub fn valtype(&mut self, r: &mut Rd) -> Option<u8> {
        let b = r.u8()?;
        if VT[b as usize] != 1 {
            return None;
        }
        self.t.p(b as u64);
        Some(b)
    }

    pub fn limits(&mut self, r: &mut Rd) -> Option<Lim> {
        let f = r.u8()?;
        if f > 1 {
            return None;
        }
        self.t.p(f as u64);
        let min = r.u32()?;
        self.t.p(min as u64);
        let mut max = 0;
        if f == 1 {
            max = r.u32()?;
            self.t.p(max as u64);
        }
        Some(Lim { has: f == 1, min, max })
    }

    pub fn tabletype(&mut self, r: &mut Rd) -> Option<Lim> {
        if r.u8()? != 0x70 {
            return None;
        }
        self.t.p(0x70);
        let l = self.limits(r)?;
        self.ok &= !l.has | (l.min <= l.max);
        Some(l)
    }

    pub fn memtype(&mut self, r: &mut Rd) -> Option<Lim> {
        let l = self.limits(r)?;
        self.ok &= !l.has | (l.min <= l.max);
        self.ok &= (l.min <= 65536) & (!l.has | (l.max <= 65536));
        Some(l)
    }

    pub fn globaltype(&mut self, r: &mut Rd) -> Option<(u8, u8)> {
        let v = self.valtype(r)?;
        let m = r.u8()?;
        if m > 1 {
            return None;
        }
        self.t.p(m as u64);
        Some((v, m))
    }

    pub fn functype(&mut self, r: &mut Rd) -> Option<Ft> {
        if r.u8()? != 0x60 {
            return None;
        }
        self.t.p(0x60);
        let mut f = Ft { np: 0, p: [0; NP], nr: 0, r: [0; NP] };
        let n = r.u32()?;
        self.t.p(n as u64);
        for i in 0..n as usize {
            let v = self.valtype(r)?;
            if self.room(i, NP) {
                f.p[i] = v;
            }
            f.np = i + 1;
        }
        let n = r.u32()?;
        self.t.p(n as u64);
        for i in 0..n as usize {
            let v = self.valtype(r)?;
            if self.room(i, NP) {
                f.r[i] = v;
            }
            f.nr = i + 1;
        }
        self.ok &= f.nr <= 1;
        Some(f)
    }

    /// Is there room for entry `n` of `max`? Entries beyond are not needed for decoding.
    fn room(&self, n: usize, max: usize) -> bool {
        cap((n < max) | self.syntax);
        n < max
    }

    // ------------------------------------------------------------ operand stack

    fn push(&mut self, t: u8) {
        cap(self.sp < NS);
        self.st[self.sp] = t;
        self.sp += 1;
    }

    /// Pops an operand; the result is its type.
    fn pop(&mut self) -> u8 {
        let f = &self.fr[self.fp - 1];
        if self.sp == f.height {
            self.ok &= f.dead;
            return ANY;
        }
        self.sp -= 1;
        self.st[self.sp]
    }

    fn expect(&mut self, t: u8) -> u8 {
        let x = self.pop();
        self.ok &= (x == ANY) | (x == t);
        x
    }

    fn dead(&mut self) {
        let f = &mut self.fr[self.fp - 1];
        self.sp = f.height;
        f.dead = true;
    }

    fn open(&mut self, label: u8, out: u8) {
        cap(self.fp < NB);
        self.fr[self.fp] = Frame { label, out, height: self.sp, dead: false };
        self.fp += 1;
    }

    /// Checks the operands at the end of a construct and removes it.
    fn shut(&mut self) -> u8 {
        let out = self.fr[self.fp - 1].out;
        if out != NONE {
            self.expect(out);
        }
        let h = self.fr[self.fp - 1].height;
        self.ok &= self.sp == h;
        self.sp = h;
        self.fp -= 1;
        out
    }

    /// Label type of a branch target.
    fn label(&mut self, l: u32) -> u8 {
        let mut t = NONE;
        self.ok &= (l as usize) < self.fp;
        for i in 0..self.fp {
            let x = self.fr[self.fp - 1 - i].label;
            t = if l as usize == i { x } else { t };
        }
        t
    }

    fn local(&mut self, x: u32) -> u8 {
        let x = x as u64;
        let mut t = I32;
        let mut base = 0u64;
        for i in 0..self.nruns {
            let (n, ty) = self.runs[i];
            t = if x >= base && x < base + n { ty } else { t };
            base += n;
        }
        self.ok &= x < base;
        t
    }

    fn global(&mut self, x: u32, n: usize) -> (u8, u8) {
        let mut g = (I32, 0);
        for i in 0..n {
            let h = self.globals[i];
            g.0 = if x as usize == i { h.0 } else { g.0 };
            g.1 = if x as usize == i { h.1 } else { g.1 };
        }
        self.ok &= (x as usize) < n;
        g
    }

    /// Applies the function type with the given index (forks on the index).
    fn apply(&mut self, y: u32) {
        for i in 0..self.ntypes {
            if y as usize == i {
                let f = self.types[i];
                for k in 0..f.np {
                    self.expect(f.p[f.np - 1 - k]);
                }
                for k in 0..f.nr {
                    self.push(f.r[k]);
                }
                return;
            }
        }
        self.ok = false;
    }

    /// Decodes an expression up to and including its own end marker. With `check` it is also
    /// validated as the body of the innermost frame; with `konst` it must be constant and may read
    /// the first `ng` globals.
    pub fn expr(&mut self, r: &mut Rd, check: bool, konst: bool, ng: usize) -> Option<()> {
        self.seq(r, check, konst, ng, false)
    }

    /// A single instruction, with its nested expressions.
    pub fn instr(&mut self, r: &mut Rd) -> Option<()> {
        self.seq(r, false, false, 0, true)
    }

    #[inline(never)]
    fn seq(&mut self, r: &mut Rd, check: bool, konst: bool, ng: usize, one: bool) -> Option<()> {
        let (check, konst) = (check & !self.syntax, konst & !self.syntax);
        let base = self.fp;
        let mut kinds = [0u8; NB];
        let mut depth = 0usize;
        loop {
            let op = r.u8()?;
            let c = CLASS[op as usize];
            if konst {
                self.ok &= (c == CI32) | (c == CI64) | (c == CF32) | (c == CF64) | (c == GGET) | (c == END);
            }
            // decode by the shape of the immediates
            let mut x = 0u32;
            let mut y = 0u32;
            let mut lone = false;
            let mut done = false;
            let mut tys = [0u8; 256];
            match SHAPE[op as usize] {
                S_NONE => self.t.p(op as u64),
                S_BLOCK => {
                    self.t.p(op as u64);
                    let bt = r.u8()?;
                    if VT[bt as usize] == 0 {
                        return None;
                    }
                    self.t.p(bt as u64);
                    cap(depth < NB);
                    kinds[depth] = c;
                    depth += 1;
                    x = bt as u32;
                }
                S_ELSE => {
                    if depth == 0 || kinds[depth - 1] != IF {
                        return None;
                    }
                    kinds[depth - 1] = ELSE;
                    self.t.p(0x05);
                }
                S_END => {
                    if depth == 0 {
                        done = true;
                    } else {
                        depth -= 1;
                        lone = kinds[depth] == IF;
                        if lone {
                            self.t.p(0x05);
                        }
                    }
                    self.t.p(0x0b);
                }
                S_IDX => {
                    self.t.p(op as u64);
                    x = r.u32()?;
                    self.t.p(x as u64);
                }
                S_TWO => {
                    self.t.p(op as u64);
                    x = r.u32()?;
                    self.t.p(x as u64);
                    y = r.u32()?;
                    self.t.p(y as u64);
                }
                S_TABLE => {
                    self.t.p(op as u64);
                    x = r.u32()?;
                    self.t.p(x as u64);
                    for i in 0..x as usize {
                        let l = r.u32()?;
                        self.t.p(l as u64);
                        if check {
                            cap(i < 256);
                            tys[i] = self.label(l);
                        }
                    }
                    y = r.u32()?;
                    self.t.p(y as u64);
                }
                S_I32 => {
                    self.t.p(op as u64);
                    let x = r.sleb(32)?;
                    self.t.p(x as u64);
                }
                S_I64 => {
                    self.t.p(op as u64);
                    let x = r.sleb(64)?;
                    self.t.p(x as u64);
                }
                S_F32 => {
                    self.t.p(op as u64);
                    let x = r.fixed(4)?;
                    self.t.p(x);
                }
                S_F64 => {
                    self.t.p(op as u64);
                    let x = r.fixed(8)?;
                    self.t.p(x);
                }
                _ => return None,
            }
            if done {
                break;
            }
            if check {
                self.typing(op, c, x, y, lone, &tys, konst, ng);
            }
            if one && depth == 0 {
                break;
            }
        }
        if check && self.fp != base {
            rt::fail(rt::CAPACITY);
        }
        Some(())
    }

    /// Effect of one instruction on the operand and control stacks.
    #[inline(never)]
    fn typing(&mut self, op: u8, c: u8, x: u32, y: u32, lone: bool, tys: &[u8; 256], konst: bool, ng: usize) {
        match c {
            UNREACHABLE => self.dead(),
            NOP => {}
            BLOCK => {
                let bt = x as u8;
                self.open(if op == 0x03 { NONE } else { bt }, bt);
            }
            IF => {
                self.expect(I32);
                self.open(x as u8, x as u8);
            }
            ELSE => {
                let out = self.shut();
                self.open(out, out);
            }
            END => {
                let out = self.shut();
                if out != NONE {
                    self.push(out);
                    self.ok &= !lone;
                }
            }
            BR => {
                let t = self.label(x);
                if t != NONE {
                    self.expect(t);
                }
                self.dead();
            }
            BRIF => {
                self.expect(I32);
                let t = self.label(x);
                if t != NONE {
                    self.expect(t);
                    self.push(t);
                }
            }
            BRTABLE => {
                // every label must have the type of the default label
                let t = self.label(y);
                for i in 0..x as usize {
                    self.ok &= tys[i] == t;
                }
                self.expect(I32);
                if t != NONE {
                    self.expect(t);
                }
                self.dead();
            }
            RETURN => {
                let t = self.ret;
                if t != NONE {
                    self.expect(t);
                }
                self.dead();
            }
            CALL => {
                self.ok &= (x as usize) < self.nfuncs;
                let mut y = 0;
                for i in 0..self.nfuncs {
                    y = if x as usize == i { self.funcs[i] } else { y };
                }
                self.apply(y);
            }
            CALLIND => {
                self.ok &= ((y as usize) < self.ntables) & ((x as usize) < self.ntypes);
                self.expect(I32);
                self.apply(x);
            }
            DROP => {
                self.pop();
            }
            SELECT => {
                self.expect(I32);
                let a = self.pop();
                let b = self.pop();
                self.ok &= (a == ANY) | (b == ANY) | (a == b);
                self.push(if a == ANY { b } else { a });
            }
            LGET | LSET | LTEE | GGET | GSET => {
                let t;
                if c == GGET || c == GSET {
                    let g = self.global(x, ng);
                    t = g.0;
                    if c == GSET {
                        self.ok &= g.1 == 1;
                    }
                    if konst {
                        self.ok &= g.1 == 0;
                    }
                } else {
                    t = self.local(x);
                }
                if c == LSET || c == LTEE || c == GSET {
                    self.expect(t);
                }
                if c == LGET || c == LTEE || c == GGET {
                    self.push(t);
                }
            }
            LOAD | STORE => {
                self.ok &= self.nmems > 0;
                self.ok &= x <= ALIGN[op as usize] as u32;
                let t = TIN[op as usize];
                if c == STORE {
                    self.expect(t);
                }
                self.expect(I32);
                if c == LOAD {
                    self.push(t);
                }
            }
            MSIZE | MGROW => {
                self.ok &= (x as usize) < self.nmems;
                if c == MGROW {
                    self.expect(I32);
                }
                self.push(I32);
            }
            CI32 => self.push(I32),
            CI64 => self.push(I64),
            CF32 => self.push(F32),
            CF64 => self.push(F64),
            UN => {
                self.expect(TIN[op as usize]);
                self.push(TOUT[op as usize]);
            }
            _ => {
                self.expect(TIN[op as usize]);
                self.expect(TIN[op as usize]);
                self.push(TOUT[op as usize]);
            }
        }
    }

    /// Initialiser or offset: a constant expression giving one value of type `t`.
    fn konst(&mut self, r: &mut Rd, t: u8, ng: usize) -> Option<()> {
        self.sp = 0;
        self.fp = 0;
        self.open(t, t);
        self.expr(r, true, true, ng)?;
        self.shut();
        Some(())
    }

    fn index(&mut self, r: &mut Rd, n: usize) -> Option<u32> {
        let x = r.u32()?;
        self.t.p(x as u64);
        self.ok &= (x as usize) < n;
        Some(x)
    }

    fn import(&mut self, r: &mut Rd) -> Option<()> {
        r.name(&mut self.t)?;
        r.name(&mut self.t)?;
        let k = r.u8()?;
        if k > 3 {
            return None;
        }
        self.t.p(k as u64);
        let i = match k {
            0 => {
                let y = self.index(r, self.ntypes)?;
                if self.room(self.nfuncs, NF) {
                    self.funcs[self.nfuncs] = y;
                }
                self.nfuncs += 1;
                self.nifuncs = self.nfuncs;
                self.nfuncs - 1
            }
            1 => {
                let l = self.tabletype(r)?;
                if self.room(self.ntables, 8) {
                    self.tables[self.ntables] = l;
                }
                self.ntables += 1;
                self.ntables - 1
            }
            2 => {
                let l = self.memtype(r)?;
                if self.room(self.nmems, 8) {
                    self.mems[self.nmems] = l;
                }
                self.nmems += 1;
                self.nmems - 1
            }
            _ => {
                let g = self.globaltype(r)?;
                if self.room(self.nglobals, NG) {
                    self.globals[self.nglobals] = g;
                }
                self.nglobals += 1;
                self.niglobals = self.nglobals;
                self.nglobals - 1
            }
        };
        if self.room(self.nimports, NX) {
            self.imports[self.nimports] = (k, i);
        }
        self.nimports += 1;
        Some(())
    }

    fn export(&mut self, r: &mut Rd) -> Option<()> {
        let n = r.name(&mut self.t)?;
        let k = r.u8()?;
        if k > 3 {
            return None;
        }
        self.t.p(k as u64);
        let x = r.u32()?;
        self.t.p(x as u64);
        if self.syntax {
            return Some(());
        }
        cap(self.nexports < NX);
        for j in 0..self.nexports {
            let m = self.names[j];
            if m.1 == n.1 {
                let mut same = true;
                for i in 0..n.1 {
                    same &= r.b[m.0 + i] == r.b[n.0 + i];
                }
                self.ok &= !same;
            }
        }
        self.exports[self.nexports] = (k, x);
        self.names[self.nexports] = n;
        self.nexports += 1;
        Some(())
    }

    /// Locals and body of a function, without its size.
    pub fn code(&mut self, r: &mut Rd, ty: u32) -> Option<()> {
        self.nruns = 0;
        // parameters, then locals
        let mut known = false;
        let nt = if self.syntax { 0 } else { self.ntypes };
        for i in 0..nt {
            if ty as usize == i {
                let f = self.types[i];
                for k in 0..f.np {
                    cap(self.nruns < NR);
                    self.runs[self.nruns] = (1, f.p[k]);
                    self.nruns += 1;
                }
                self.ret = if f.nr == 1 { f.r[0] } else { NONE };
                known = true;
                break;
            }
        }
        let n = r.u32()?;
        let at = self.t.n;
        self.t.p(0);
        let mut total = 0u64;
        for _ in 0..n {
            let k = r.u32()? as u64;
            total += k;
            if total > 0xffff_ffff {
                return None;
            }
            let v = r.u8()?;
            if VT[v as usize] != 1 {
                return None;
            }
            if known {
                cap(self.nruns < NR);
                self.runs[self.nruns] = (k, v);
                self.nruns += 1;
            }
            // the decoded form lists every local
            if self.bound != !0 {
                rt::assume(total <= self.bound);
            }
            if k > 700 {
                rt::fail(rt::CAPACITY);
            }
            for _ in 0..k {
                self.t.p(v as u64);
            }
        }
        self.t.e[at] = total;
        self.sp = 0;
        self.fp = 0;
        let ret = self.ret;
        self.open(ret, ret);
        let ng = self.nglobals;
        self.expr(r, known, false, ng)?;
        if known {
            self.shut();
        }
        Some(())
    }

    /// Decodes and validates the content of one section.
    fn section(&mut self, id: u8, r: &mut Rd) -> Option<()> {
        if id == 8 {
            let f = r.u32()?;
            self.t.p(1);
            self.t.p(f as u64);
            if self.syntax {
                return Some(());
            }
            self.ok &= (f as usize) < self.nfuncs;
            let mut y = 0;
            for i in 0..self.nfuncs {
                y = if f as usize == i { self.funcs[i] } else { y };
            }
            let mut good = false;
            for i in 0..self.ntypes {
                good |= (y as usize == i) & (self.types[i].np == 0) & (self.types[i].nr == 0);
            }
            self.ok &= good;
            return Some(());
        }
        let n = r.u32()?;
        self.t.p(n as u64);
        let short = id == 10 && n as usize != self.nfuncs - self.nifuncs;
        if short && self.bound == !0 {
            return None;
        }
        for i in 0..n as usize {
            match id {
                1 => {
                    let f = self.functype(r)?;
                    if self.room(self.ntypes, NT) {
                    self.types[self.ntypes] = f;
                }
                    self.ntypes += 1;
                }
                2 => self.import(r)?,
                3 => {
                    let y = self.index(r, self.ntypes)?;
                    if self.room(self.nfuncs, NF) {
                    self.funcs[self.nfuncs] = y;
                }
                    self.nfuncs += 1;
                }
                4 => {
                    let l = self.tabletype(r)?;
                    if self.room(self.ntables, 8) {
                    self.tables[self.ntables] = l;
                }
                    self.ntables += 1;
                }
                5 => {
                    let l = self.memtype(r)?;
                    if self.room(self.nmems, 8) {
                    self.mems[self.nmems] = l;
                }
                    self.nmems += 1;
                }
                6 => {
                    let g = self.globaltype(r)?;
                    let ng = self.niglobals;
                    self.konst(r, g.0, ng)?;
                    if self.room(self.nglobals, NG) {
                    self.globals[self.nglobals] = g;
                }
                    self.nglobals += 1;
                }
                7 => self.export(r)?,
                9 => {
                    self.index(r, self.ntables)?;
                    let ng = self.nglobals;
                    self.konst(r, I32, ng)?;
                    let k = r.u32()?;
                    self.t.p(k as u64);
                    for _ in 0..k {
                        self.index(r, self.nfuncs)?;
                    }
                }
                10 => {
                    let size = r.u32()? as usize;
                    let fits = size <= r.end - r.p;
                    if !fits && self.bound == !0 {
                        return None;
                    }
                    // a body that is too long is still scanned, for the bound on its locals
                    let end = if fits { r.p + size } else { r.end };
                    let mut s = Rd { b: r.b, p: r.p, end };
                    let ty = if self.syntax || short { 0 } else { self.funcs[self.nifuncs + i] };
                    self.code(&mut s, ty)?;
                    if !fits || s.p != s.end {
                        return None;
                    }
                    r.p = s.p;
                }
                _ => {
                    self.index(r, self.nmems)?;
                    let ng = self.nglobals;
                    self.konst(r, I32, ng)?;
                    let k = r.u32()? as usize;
                    if k > r.end - r.p {
                        return None;
                    }
                    self.t.p(k as u64);
                    for _ in 0..k {
                        let x = r.u8()?;
                        self.t.p(x as u64);
                    }
                }
            }
        }
        if short {
            return None;
        }
        Some(())
    }

    /// Decodes and validates a whole module.
    #[inline(never)]
    pub fn module(&mut self, b: &[u8]) -> Option<()> {
        static PRE: [u8; 8] = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
        if b.len() < 8 {
            return None;
        }
        let mut pre = true;
        for i in 0..8 {
            pre &= b[i] == PRE[i];
        }
        if !pre {
            return None;
        }
        let mut r = Rd { b, p: 8, end: b.len() };
        let mut last = 0u8;
        let mut code = false;
        while r.p < r.end {
            let id = r.u8()?;
            if id > 11 {
                return None;
            }
            if id != 0 {
                if id <= last {
                    return None;
                }
                // omitted sections are empty
                for _ in last + 1..id {
                    self.t.p(0);
                }
                last = id;
            }
            let size = r.u32()? as usize;
            let fits = size <= r.end - r.p;
            if !fits && !(id == 10 && self.bound != !0) {
                return None;
            }
            let end = if fits { r.p + size } else { r.end };
            let mut s = Rd { b, p: r.p, end };
            if id == 0 {
                let n = self.t.n;
                s.name(&mut self.t)?;
                self.t.n = n;
                s.p = s.end;
            } else {
                if id == 10 {
                    code = true;
                }
                self.section(id, &mut s)?;
            }
            if !fits || s.p != s.end {
                return None;
            }
            r.p = s.p;
        }
        for _ in last + 1..12 {
            self.t.p(0);
        }
        if !code && self.nfuncs != self.nifuncs {
            return None;
        }
        self.ok &= (self.ntables <= 1) & (self.nmems <= 1);
        for i in 0..self.nexports {
            let (k, x) = self.exports[i];
            let n = [self.nfuncs, self.ntables, self.nmems, self.nglobals];
            let lim = if k == 0 { n[0] } else if k == 1 { n[1] } else if k == 2 { n[2] } else { n[3] };
            self.ok &= (x as usize) < lim;
        }
        Some(())
    }

    /// External types of an accepted module.
    pub fn externals(&self, t: &mut Tr) {
        t.p(self.nimports as u64);
        for i in 0..self.nimports {
            let (k, x) = self.imports[i];
            self.external(t, k, x as u32);
        }
        t.p(self.nexports as u64);
        for i in 0..self.nexports {
            let (k, x) = self.exports[i];
            self.external(t, k, x);
        }
    }

    fn external(&self, t: &mut Tr, k: u8, x: u32) {
        let x = x as usize;
        t.p(k as u64);
        match k {
            0 => {
                for i in 0..self.nfuncs {
                    if x == i {
                        let y = self.funcs[i] as usize;
                        for j in 0..self.ntypes {
                            if y == j {
                                let f = &self.types[j];
                                t.p(0x60);
                                t.p(f.np as u64);
                                for q in 0..f.np {
                                    t.p(f.p[q] as u64);
                                }
                                t.p(f.nr as u64);
                                for q in 0..f.nr {
                                    t.p(f.r[q] as u64);
                                }
                            }
                        }
                    }
                }
            }
            1 | 2 => {
                let n = if k == 1 { self.ntables } else { self.nmems };
                for i in 0..n {
                    if x == i {
                        let l = if k == 1 { self.tables[i] } else { self.mems[i] };
                        if k == 1 {
                            t.p(0x70);
                        }
                        t.p(l.has as u64);
                        t.p(l.min as u64);
                        if l.has {
                            t.p(l.max as u64);
                        }
                    }
                }
            }
            _ => {
                for i in 0..self.nglobals {
                    if x == i {
                        t.p(self.globals[i].0 as u64);
                        t.p(self.globals[i].1 as u64);
                    }
                }
            }
        }
    }
}
