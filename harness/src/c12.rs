//! Typing of numeric and parametric instructions.

use crate::rt::*;
use whasm::validation::ValidationEntry;
use whasm::structure::module::Module;
use whasm::binary::WasmBinary;
use crate::whole::*;

/// An opcode of this property without immediates, or any unassigned one above them.
fn op() -> u8 {
    let o = byte();
    assume((o == 0x1a) | (o == 0x1b) | (o >= 0x45));
    o
}

/// A module with one function of `np` parameters and `nr` results, all of symbolic type, with the
/// body that `f` writes.
fn body(np: u64, nr: u64, f: impl FnOnce(&mut Buf)) {
    let mut b = Buf::module();
    let s = b.open(Some(1));
    b.u(1).ftype(np as usize, nr as usize);
    b.close(s);
    b.sec(3, &[1, 0]);
    let s = b.open(Some(10));
    b.u(1);
    let e = b.open(None);
    b.u(0);
    f(&mut b);
    b.u(0x0b);
    b.close(e);
    b.close(s);
    verdict(b.s());
}

fn gets(b: &mut Buf, np: u64) {
    for i in 0..np {
        b.u(0x20).u(i as u8);
    }
}

entries! {
    /// Operands, then `k` instructions.
    fn c12_ops(np, nr, k) {
        body(np, nr, |b| {
            gets(b, np);
            for _ in 0..k { b.u(op()); }
        })
    }
    /// The same in code that cannot be reached.
    fn c12_dead(np, nr, k) {
        body(np, nr, |b| {
            b.u(0);
            gets(b, np);
            for _ in 0..k { b.u(op()); }
        })
    }
    /// An instruction, more operands, another instruction; `dead`: what comes first.
    fn c12_mix(np, nr, dead) {
        body(np, nr, |b| {
            if dead == 1 { b.u(0); }
            gets(b, np);
            b.u(op());
            if dead == 2 { b.u(0); }
            gets(b, 1);
            b.u(op());
        })
    }
    /// A constant and a use of it.
    fn c12_const(w, nr, k) {
        body(0, nr, |b| {
            let o = byte();
            assume((o == 0x41) | (o == 0x42) | (o == 0x43) | (o == 0x44));
            b.u(o);
            if o == 0x43 {
                b.sym(4);
            } else if o == 0x44 {
                b.sym(8);
            } else {
                b.num(w as usize);
            }
            for _ in 0..k { b.u(op()); }
        })
    }
    /// `select` over `np` operands in code that may be dead, its result used by another
    /// instruction.
    fn c12_select(np, nr, dead) {
        body(np, nr, |b| {
            if dead == 1 { b.u(0); }
            gets(b, np);
            b.u(0x1b);
            b.u(op());
        })
    }
    /// Inside a block of symbolic result type.
    fn c12_block(np, k) {
        body(np, 0, |b| {
            b.u(0x02).u(bt());
            gets(b, np);
            for _ in 0..k { b.u(op()); }
            b.u(0x0b).u(byte());
        })
    }
    /// `n` constants, then as many operations of which the one numbered `at` is symbolic.
    fn c12_big(n, at) {
        let mut body = Long::new();
        body.u(0);
        for _ in 0..=n { body.u(0x41).u(0); }
        let op = byte();
        assume((op == 0x6a) | (op == 0x7c) | (op == 0x45) | (op == 0x01) | (op == 0x1a));
        for i in 0..n { body.u(if i == at { op } else { 0x6a }); }
        body.u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.put(&[1, 5, 1, 0x60, 0, 1, 0x7f, 3, 2, 1, 0]).sec(10, &code);
        let got = match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => m.validate().is_ok(),
            Err(_) => false,
        };
        // dropping takes one operand as well
        check(60, got == ((op == 0x6a) | (op == 0x1a)));
        if got { reach(1); } else { reach(2); }
        obs(got as u64);
    }
}
