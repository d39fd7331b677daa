//! Counted sequences, run-length sequences and arrays.

use crate::flat;
use crate::prim::*;
use crate::rt::*;
use crate::tr::Tr;
use whasm::binary::{Byte, CompactVec, Error, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};
use whasm::structure::ty;

type Elem = fn(&[u8], &mut usize) -> P;

fn e_byte(b: &[u8], p: &mut usize) -> P {
    raw(b, p)
}
fn e_u8(b: &[u8], p: &mut usize) -> P {
    leb(b, p, 8)
}
fn e_u32(b: &[u8], p: &mut usize) -> P {
    leb(b, p, 32)
}
fn e_i32(b: &[u8], p: &mut usize) -> P {
    sleb(b, p, 32)
}
fn e_f32(b: &[u8], p: &mut usize) -> P {
    fixed(b, p, 4)
}
fn e_val(b: &[u8], p: &mut usize) -> P {
    match raw(b, p) {
        P::Val(x) if (0x7c..=0x7f).contains(&x) => P::Val(x),
        P::Val(_) => P::Any,
        x => x,
    }
}

/// Reference: `n` elements after one another.
#[inline(always)]
fn list(b: &[u8], p: &mut usize, n: u64, e: Elem, t: &mut Tr) -> Option<P> {
    for _ in 0..n {
        match e(b, p) {
            P::Val(x) => t.p(x),
            w => return Some(w),
        }
    }
    None
}

#[inline(always)]
fn counted(b: &[u8], p: &mut usize, e: Elem, t: &mut Tr) -> Option<P> {
    match leb(b, p, 32) {
        P::Val(n) => list(b, p, n, e, t),
        w => Some(w),
    }
}

/// Reference for runs. The total is kept small by assumption, or it is over the limit at once.
#[inline(always)]
fn runs(b: &[u8], p: &mut usize, e: Elem, t: &mut Tr, most: u64) -> Option<P> {
    let k = match leb(b, p, 32) {
        P::Val(n) => n,
        w => return Some(w),
    };
    let mut total = 0;
    for _ in 0..k {
        let n = match leb(b, p, 32) {
            P::Val(n) => n,
            w => return Some(w),
        };
        if total + n > 0xffff_ffff {
            reach(4);
            return Some(P::Any);
        }
        let v = e(b, p);
        // a run that fails is not expanded, one that succeeds is bounded
        if let P::Val(x) = v {
            total += n;
            assume(total <= most);
            for _ in 0..n {
                t.p(x);
            }
        } else {
            return Some(v);
        }
    }
    None
}

fn judge(got: Result<Tr, Error>, want: Option<P>, t: &Tr, pos: usize, p: usize, signed: bool) {
    match (&got, &want) {
        (Ok(g), None) => {
            reach(1);
            check(1, g.same(t));
            check(2, pos == p);
        }
        (Ok(_), Some(_)) => fail(3),
        (Err(_), None) => fail(4),
        (Err(e), Some(w)) => {
            match w {
                P::Eof => reach(2),
                _ => reach(3),
            }
            check(5, right(e, w, signed) || (signed && right(e, w, false)));
            check(6, pos <= p);
        }
    }
    match &got {
        Ok(g) => g.observe(),
        Err(_) => obs(!0),
    }
    obs(pos as u64);
}

fn tr<T>(v: &[T], f: impl Fn(&T) -> u64) -> Tr {
    let mut t = Tr::new();
    for x in v {
        t.p(f(x));
    }
    t
}

fn vec_of<T: WasmBinaryParse>(b: &[u8], e: Elem, signed: bool, f: impl Fn(&T) -> u64) {
    let mut c = Cur::new(b);
    let r = c.parse::<Vec<T>>().map(|v| tr(&v, f));
    let (mut t, mut p) = (Tr::new(), 0);
    let w = counted(b, &mut p, e, &mut t);
    judge(r, w, &t, c.pos, p, signed);
}

fn bytes_of(b: &[u8]) {
    let mut c = Cur::new(b);
    let r = c.parse::<UnwrappingVec<Byte>>().map(|v| tr(&v.unwrap(), |x| *x as u64));
    let (mut t, mut p) = (Tr::new(), 0);
    let w = counted(b, &mut p, e_byte, &mut t);
    judge(r, w, &t, c.pos, p, false);
}

/// Whether decoding the runs would first expand more than `most` elements.
fn small(b: &[u8], e: Elem, most: u64) {
    let mut p = 0;
    let mut t = Tr::new();
    runs(b, &mut p, e, &mut t, most);
}

fn runs_of<T: WasmBinaryParse + Copy>(b: &[u8], e: Elem, most: u64, f: impl Fn(&T) -> u64) {
    small(b, e, most);
    let mut c = Cur::new(b);
    let r = c.parse::<CompactVec<T>>().map(|v| tr(&v.unwrap(), f));
    let (mut t, mut p) = (Tr::new(), 0);
    let w = runs(b, &mut p, e, &mut t, most);
    judge(r, w, &t, c.pos, p, false);
}

fn array_of<T: WasmBinaryParse, const N: usize>(b: &[u8], e: Elem, f: impl Fn(&T) -> u64)
where
    [T; N]: WasmBinaryParse,
{
    let mut c = Cur::new(b);
    let r = c.parse::<[T; N]>().map(|v| tr(&v, f));
    let (mut t, mut p) = (Tr::new(), 0);
    let w = list(b, &mut p, N as u64, e, &mut t);
    judge(r, w, &t, c.pos, p, false);
}

fn free(n: u64) -> Buf {
    let mut b = Buf::new();
    b.sym(n as usize);
    b
}

entries! {
    fn c05_bytes(n) { bytes_of(free(n).s()) }
    fn c05_vec_u8(n) { vec_of::<u8>(free(n).s(), e_u8, false, |x| *x as u64) }
    fn c05_vec_u32(n) { vec_of::<u32>(free(n).s(), e_u32, false, |x| *x as u64) }
    fn c05_vec_i32(n) { vec_of::<i32>(free(n).s(), e_i32, true, |x| *x as i64 as u64) }
    fn c05_vec_f32(n) { vec_of::<f32>(free(n).s(), e_f32, false, |x| x.to_bits() as u64) }
    fn c05_vec_val(n) { vec_of::<ty::Val>(free(n).s(), e_val, false, flat::val) }
    fn c05_runs_u8(n, most) { runs_of::<u8>(free(n).s(), e_u8, most, |x| *x as u64) }
    fn c05_runs_val(n, most) { runs_of::<ty::Val>(free(n).s(), e_val, most, flat::val) }
    fn c05_arr_byte(n, k) {
        let b = free(n);
        let f = |x: &Byte| x.0 as u64;
        match k {
            0 => array_of::<Byte, 0>(b.s(), e_byte, f),
            1 => array_of::<Byte, 1>(b.s(), e_byte, f),
            2 => array_of::<Byte, 2>(b.s(), e_byte, f),
            3 => array_of::<Byte, 3>(b.s(), e_byte, f),
            4 => array_of::<Byte, 4>(b.s(), e_byte, f),
            5 => array_of::<Byte, 5>(b.s(), e_byte, f),
            6 => array_of::<Byte, 6>(b.s(), e_byte, f),
            7 => array_of::<Byte, 7>(b.s(), e_byte, f),
            _ => array_of::<Byte, 8>(b.s(), e_byte, f),
        }
    }
    fn c05_arr_u32(n, k) {
        let b = free(n);
        let f = |x: &u32| *x as u64;
        match k {
            0 => array_of::<u32, 0>(b.s(), e_u32, f),
            1 => array_of::<u32, 1>(b.s(), e_u32, f),
            2 => array_of::<u32, 2>(b.s(), e_u32, f),
            3 => array_of::<u32, 3>(b.s(), e_u32, f),
            4 => array_of::<u32, 4>(b.s(), e_u32, f),
            5 => array_of::<u32, 5>(b.s(), e_u32, f),
            6 => array_of::<u32, 6>(b.s(), e_u32, f),
            7 => array_of::<u32, 7>(b.s(), e_u32, f),
            _ => array_of::<u32, 8>(b.s(), e_u32, f),
        }
    }
    /// Sequence of sequences.
    fn c05_nested(n) {
        let b = free(n);
        let b = b.s();
        let mut c = Cur::new(b);
        let r = c.parse::<Vec<UnwrappingVec<Byte>>>().map(|v| {
            let mut t = Tr::new();
            for x in v {
                let x = x.unwrap();
                t.p(0x1000 + x.len() as u64);
                for y in x {
                    t.p(y as u64);
                }
            }
            t
        });
        let (mut t, mut p) = (Tr::new(), 0);
        let w = match leb(b, &mut p, 32) {
            P::Val(n) => {
                let mut w = None;
                for _ in 0..n {
                    let at = t.n;
                    t.p(0);
                    w = counted(b, &mut p, e_byte, &mut t);
                    if w.is_some() {
                        break;
                    }
                    t.e[at] = 0x1000 + (t.n - at - 1) as u64;
                }
                w
            }
            w => Some(w),
        };
        judge(r, w, &t, c.pos, p, false);
    }
    /// Declared length `len`, with `n` symbolic bytes following, the length padded to `pad` bytes.
    fn c05_long(kind, len, n) {
        let mut b = Buf::new();
        b.leb(len as u32).sym(n as usize);
        match kind {
            0 => bytes_of(b.s()),
            1 => vec_of::<ty::Val>(b.s(), e_val, false, flat::val),
            2 => {
                // elements of one byte each
                for i in 0..b.n - n as usize { let _ = i; }
                for i in b.n - n as usize..b.n { assume(b.b[i] < 0x80); }
                vec_of::<u32>(b.s(), e_u32, false, |x| *x as u64)
            }
            _ => vec_of::<f32>(b.s(), e_f32, false, |x| x.to_bits() as u64),
        }
    }
    /// Three runs of given lengths with symbolic values.
    fn c05_long_runs(a, b, c) {
        let mut x = Buf::new();
        x.u(3);
        for n in [a, b, c] { x.leb(n as u32).sym(1); }
        x.sym(1);
        runs_of::<u8>(x.s(), e_u8, 1000, |x| *x as u64)
    }
    /// Two runs whose lengths are any five-byte numbers.
    fn c05_runs_sum(first) {
        let mut x = Buf::new();
        x.put(&[2]).leb(first as u32).u(7);
        let at = x.n;
        x.sym(5).sym(1);
        for i in 0..4 { assume(x.b[at + i] >= 0x80); }
        runs_of::<u8>(x.s(), e_u8, 40, |x| *x as u64)
    }
    /// `n` elements, the last one symbolic: numbers, bytes, one run of equal elements, many runs.
    fn c05_big(kind, n) {
        let mut b = Long::new();
        let x = byte();
        assume(x < 0x80);
        let want = |i: u64| if i + 1 == n { x } else { (i % 100) as u8 };
        let n = n as usize;
        b.leb(if kind == 2 { 2 } else { n as u64 });
        match kind {
            2 => { b.leb(n as u64).u(7).u(1).u(x); }
            3 => for i in 0..n as u64 { b.u(1).u(want(i)); },
            _ => for i in 0..n as u64 { b.u(want(i)); },
        }
        let end = b.0.len();
        b.u(0);
        let mut c = Cur::new(b.s());
        let v = match kind {
            0 => c.parse::<Vec<u32>>().map(|v| v.into_iter().map(|x| x as u8).collect::<Vec<u8>>()),
            1 => c.parse::<UnwrappingVec<Byte>>().map(|v| v.unwrap()),
            _ => c.parse::<CompactVec<u8>>().map(|v| v.unwrap()),
        };
        match v {
            Ok(v) => {
                reach(1);
                check(20, v.len() == n + (kind == 2) as usize);
                check(21, c.pos == end);
                let mut ok = true;
                for (i, y) in v.iter().enumerate() {
                    ok &= *y == if kind != 2 { want(i as u64) } else if i < n { 7 } else { x };
                }
                check(22, ok);
                obs(v.len() as u64);
                obs(v[v.len() - 1] as u64);
            }
            Err(_) => fail(23),
        }
    }
}
