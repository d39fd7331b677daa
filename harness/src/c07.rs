//! Opcodes and immediates.

use crate::flat;
use crate::rt::*;
use crate::spec::{Mod, Rd};
use crate::tr::Tr;
use whasm::binary::WasmBinary;
use whasm::structure::instr::{Expr, Instr};

/// One instruction (not a block) at the start of the stream.
pub fn one(b: &[u8]) {
    let mut c = Cur::new(b);
    let r = c.parse::<Instr>();
    let mut m = Mod::new();
    let mut rd = Rd::new(b);
    let want = m.instr(&mut rd).is_some();
    match &r {
        Ok(i) => {
            reach(1);
            check(1, want);
            let mut t = Tr::new();
            flat::instr(&mut t, i);
            check(2, t.same(&m.t));
            check(3, c.pos == rd.p);
            t.observe();
        }
        Err(_) => {
            reach(2);
            check(4, !want);
            obs(!0);
        }
    }
}

/// A whole expression.
pub fn expr(b: &[u8]) {
    let mut c = Cur::new(b);
    let r = c.parse::<Expr>();
    let mut m = Mod::new();
    let mut rd = Rd::new(b);
    let want = m.expr(&mut rd, false, false, 0).is_some();
    match &r {
        Ok(e) => {
            reach(1);
            check(11, want);
            let mut t = Tr::new();
            flat::expr(&mut t, &e.0);
            check(12, t.same(&m.t));
            check(13, c.pos == rd.p);
            t.observe();
        }
        Err(_) => {
            reach(2);
            check(14, !want);
            obs(!0);
        }
    }
}

entries! {
    /// Any opcode but the block openers and markers, any immediates within `n` bytes.
    fn c07_one(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        let op = b.b[0];
        assume((op != 2) & (op != 3) & (op != 4) & (op != 5) & (op != 0x0b));
        one(b.s());
    }
    /// A given opcode with any immediates within `n` bytes.
    fn c07_op(op, n) {
        let mut b = Buf::new();
        b.u(op as u8).sym(n as usize);
        one(b.s());
    }
    /// An opcode with one-byte immediates, between two others, in an expression.
    fn c07_between(k) {
        let mut b = Buf::new();
        b.put(&[0x41, 0x07, 0x20, 0x03]);
        b.sym(1 + k as usize);
        let op = b.b[4];
        assume((op != 2) & (op != 3) & (op != 4) & (op != 5) & (op != 0x0b));
        b.put(&[0x6a, 0x0b, 0x0b, 0x0b]);
        expr(b.s());
    }
    /// Label table of `k` entries whose labels take `w` bytes each.
    fn c07_table(k, w) {
        let mut b = Buf::new();
        b.u(0x0e).leb(k as u32);
        for _ in 0..k + 1 {
            let at = b.n;
            b.sym(w as usize);
            for i in 0..w as usize {
                assume((b.b[at + i] >= 0x80) == (i + 1 < w as usize));
            }
        }
        b.u(0x0b);
        expr(b.s());
    }
    /// A label table of `n` entries, the last and the default symbolic.
    fn c07_big(n) {
        let mut b = Long::new();
        b.u(0x0e).leb(n);
        for i in 1..n { b.leb(i); }
        let last = b.num();
        let other = b.num();
        let mut c = Cur::new(b.s());
        match c.parse::<Instr>() {
            Ok(Instr::BrTable(v, l)) => {
                reach(1);
                check(30, v.len() as u64 == n);
                let mut ok = true;
                for (i, x) in v.iter().enumerate() {
                    ok &= x.0 as u64 == if i as u64 + 1 == n { last } else { i as u64 + 1 };
                }
                check(31, ok);
                check(32, l.0 as u64 == other);
                check(33, c.pos == b.0.len());
                obs(v.len() as u64);
                obs(l.0 as u64);
            }
            _ => fail(34),
        }
    }
}
