//! Initialisers and offsets.

use crate::rt::*;
use crate::whole::*;

/// A module with `ni` imported globals (symbolic type and mutability), two own ones, a table and a
/// memory; `f` writes the constant expression in place `at`: 0 the first own global, 1 the second,
/// 2 element offset, 3 data offset.
fn place(at: u64, ni: u64, f: impl FnOnce(&mut Buf)) {
    let mut f = Some(f);
    let mut b = Buf::module();
    let s = b.open(Some(2));
    b.u(ni as u8);
    for _ in 0..ni {
        b.put(&[0, 0, 3]).u(vt()).u(below(2));
    }
    b.close(s);
    if at == 2 {
        b.sec(4, &[1, 0x70, 0, 1]);
    }
    if at == 3 {
        b.sec(5, &[1, 0, 1]);
    }
    let s = b.open(Some(6));
    b.u(2);
    for i in 0..2 {
        if i == at {
            b.u(vt()).u(below(2));
            f.take().unwrap()(&mut b);
            b.u(0x0b);
            f = None;
        } else {
            b.u(0x7f).u(below(2)).put(&[0x41, 5, 0x0b]);
        }
    }
    b.close(s);
    if at == 2 {
        let s = b.open(Some(9));
        b.u(1).u(0);
        f.take().unwrap()(&mut b);
        b.u(0x0b).u(0);
        b.close(s);
    } else if at == 3 {
        let s = b.open(Some(11));
        b.u(1).u(0);
        f.take().unwrap()(&mut b);
        b.u(0x0b).u(1).u(7);
        b.close(s);
    }
    verdict(b.s());
}

entries! {
    /// Any `n` bytes.
    fn c16_free(at, ni, n) {
        place(at, ni, |b| { b.sym(n as usize); })
    }
    /// Reads of globals with an index of `w` bytes.
    fn c16_get(at, ni, w) {
        place(at, ni, |b| { b.u(0x23).num(w as usize); })
    }
    /// Integer constants of `w` bytes.
    fn c16_int(at, w) {
        place(at, 0, |b| {
            let o = byte();
            assume((o == 0x41) | (o == 0x42));
            b.u(o).num(w as usize);
        })
    }
    /// Float constants.
    fn c16_float(at, op) {
        place(at, 0, |b| {
            b.u(op as u8).sym(if op == 0x43 { 4 } else { 8 });
        })
    }
    /// `k` instructions with a one-byte immediate (or none, then nop).
    fn c16_seq(at, ni, k) {
        place(at, ni, |b| {
            for _ in 0..k {
                let (o, x) = (byte(), byte());
                assume(
                    (((o == 0x41) | (o == 0x42)) & (x == 0))
                        | (((o == 0x23) | (o == 0x20) | (o == 0x10)) & (x < 5))
                        | (((o == 0x1a) | (o == 0x01) | (o == 0x00) | (o == 0x0f) | (o == 0x1b) | (o == 0x45)) & (x == 1)),
                );
                b.u(o).u(x);
            }
        })
    }
    /// A constant, then any other single-byte instruction.
    fn c16_after(at, first) {
        place(at, 1, |b| {
            b.u(first as u8).u(0).sym(1);
        })
    }
    /// A block around or in place of a constant.
    fn c16_block(at) {
        place(at, 1, |b| {
            let o = byte();
            assume((o >= 0x02) & (o <= 0x04));
            b.u(0x41).u(0).u(o).u(bt()).u(0x41).u(0).u(0x0b);
        })
    }
    /// Two segments: both offsets count. `kind` 9 or 11.
    fn c16_segments(kind, ni) {
        let mut b = Buf::module();
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { b.put(&[0, 0, 3]).u(vt()).u(below(2)); }
        b.close(s);
        if kind == 9 { b.sec(4, &[1, 0x70, 0, 1]); } else { b.sec(5, &[1, 0, 1]); }
        b.sec(6, &[1, 0x7f, 0, 0x41, 0, 0x0b]);
        let s = b.open(Some(kind as u8));
        b.u(2);
        for _ in 0..2 {
            let o = byte();
            assume((o == 0x41) | (o == 0x42) | (o == 0x23) | (o == 0x20));
            b.u(0).u(o).u(below(4)).u(0x0b).u(0);
        }
        b.close(s);
        verdict(b.s());
    }
    /// Three own globals, each initialised by a constant or a read.
    fn c16_globals(ni) {
        let mut b = Buf::module();
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { b.put(&[0, 0, 3]).u(vt()).u(below(2)); }
        b.close(s);
        let s = b.open(Some(6));
        b.u(3);
        for _ in 0..3 {
            b.u(vt()).u(below(2));
            let o = byte();
            assume((o == 0x41) | (o == 0x42) | (o == 0x23));
            b.u(o).u(below(5)).u(0x0b);
        }
        b.close(s);
        verdict(b.s());
    }
    /// One of `n` imported globals, every third of which is a 64-bit one and every fifth mutable, in place `at`
    /// of `place`.
    fn c16_big(n, at) {
        let mut i = Long::new();
        i.leb(n);
        for k in 0..n { i.put(&[0, 0, 3]).u(if k % 3 == 1 { 0x7e } else { 0x7f }).u((k % 5 == 2) as u8); }
        let mut x = Long::new();
        x.u(0x23);
        let k = x.num();
        assume((k < 7) | (k + 7 > n) & (k < n + 7) | (k & 0xff < 7) & (k < 2 * n) | (k & 0xffff < 7));
        x.u(0x0b);
        let mut b = Long::module();
        b.sec(2, &i);
        let mut s = Long::new();
        match at {
            0 => { s.put(&[1, 0x7f, 0]).put(x.s()); }
            1 => { s.put(&[2, 0x7f, 0, 0x41, 0, 0x0b, 0x7f, 0]).put(x.s()); }
            _ => { s.put(&[1, 0]).put(x.s()).u(0); }
        }
        match at {
            2 => { b.put(&[4, 4, 1, 0x70, 0, 1]).sec(9, &s); }
            3 => { b.put(&[5, 3, 1, 0, 1]).sec(11, &s); }
            _ => { b.sec(6, &s); }
        }
        long(&b, (k < n) & (k % 3 != 1) & (k % 5 != 2));
    }
}
