//! Floating-point values.

use crate::prim::*;
use crate::rt::*;
use whasm::binary::{Error, WasmBinary};
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::structure::module::{Global, Module};

/// `f` decodes `count` floats of `size` bytes into bit patterns.
fn run(n: usize, pre: &[u8], post: &[u8], size: usize, count: usize, f: impl FnOnce(&mut Cur, &mut [u64]) -> Result<bool, Error>) {
    let mut buf = Buf::new();
    buf.put(pre).sym(n).put(post);
    let b = buf.s();
    let mut c = Cur::new(b);
    let mut got = [0u64; 4];
    let r = f(&mut c, &mut got);
    if n >= size * count || !post.is_empty() {
        reach(1);
        check(1, matches!(r, Ok(true)));
        let mut p = pre.len();
        let mut ok = true;
        for i in 0..count {
            if let P::Val(x) = fixed(b, &mut p, size) {
                ok &= got[i] == x;
            }
        }
        check(2, ok);
        check(3, c.pos == p + post.len());
    } else {
        reach(2);
        check(4, matches!(r, Err(Error::UnexpectedEndOfFile)));
    }
    for i in 0..count {
        obs(got[i]);
    }
    obs(c.pos as u64);
}

/// Bits of a float constant instruction.
fn bits(i: &Instr, out: &mut u64) -> bool {
    match i {
        Instr::ConstF32(x) => {
            *out = x.to_bits() as u64;
            true
        }
        Instr::ConstF64(x) => {
            *out = x.to_bits();
            true
        }
        _ => false,
    }
}

entries! {
    fn c03_f32(n) { run(n as usize, &[], &[], 4, 1, |c, o| { o[0] = c.parse::<f32>()?.to_bits() as u64; Ok(true) }) }
    fn c03_f64(n) { run(n as usize, &[], &[], 8, 1, |c, o| { o[0] = c.parse::<f64>()?.to_bits(); Ok(true) }) }
    fn c03_arr32(n) {
        run(n as usize, &[], &[], 4, 3, |c, o| {
            let a = c.parse::<[f32; 3]>()?;
            for i in 0..3 { o[i] = a[i].to_bits() as u64; }
            Ok(true)
        })
    }
    fn c03_arr64(n) {
        run(n as usize, &[], &[], 8, 2, |c, o| {
            let a = c.parse::<[f64; 2]>()?;
            for i in 0..2 { o[i] = a[i].to_bits(); }
            Ok(true)
        })
    }
    fn c03_vec32(n) {
        run(n as usize, &[3], &[], 4, 3, |c, o| {
            let a = c.parse::<Vec<f32>>()?;
            for i in 0..a.len() { o[i] = a[i].to_bits() as u64; }
            Ok(a.len() == 3)
        })
    }
    fn c03_instr32(n) { run(n as usize, &[0x43], &[], 4, 1, |c, o| { let i = c.parse::<Instr>()?; Ok(bits(&i, &mut o[0])) }) }
    fn c03_instr64(n) { run(n as usize, &[0x44], &[], 8, 1, |c, o| { let i = c.parse::<Instr>()?; Ok(bits(&i, &mut o[0])) }) }
    fn c03_expr() {
        run(4, &[0x41, 0x00, 0x43], &[0x1a, 0x0b], 4, 1, |c, o| {
            let e = c.parse::<Expr>()?.0;
            Ok(e.len() == 3 && bits(&e[1], &mut o[0]))
        })
    }
    fn c03_const() {
        run(8, &[0x44], &[0x0b], 8, 1, |c, o| {
            let e = c.parse::<ConstExpr>()?.0;
            Ok(e.len() == 1 && bits(&e[0], &mut o[0]))
        })
    }
    fn c03_global() {
        run(8, &[0x7c, 0x01, 0x44], &[0x0b], 8, 1, |c, o| {
            let e = c.parse::<Global>()?.init.0;
            Ok(e.len() == 1 && bits(&e[0], &mut o[0]))
        })
    }
    /// Constants in a function body nested in a block, and in a global, of a whole module.
    fn c03_module(wide) {
        if wide == 1 {
            let pre = [
                0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0, 6, 0x0d, 1, 0x7c, 0, 0x44, 0, 0, 0, 0, 0, 0, 0xf0, 0x3f, 0x0b,
                10, 0x11, 1, 0x0f, 0, 2, 0x40, 0x44,
            ];
            run(8, &pre, &[0x1a, 0x0b, 0x0b], 8, 1, |c, o| {
                let m = c.parse::<Module>()?;
                if m.funcs.len() != 1 || m.funcs[0].body.0.len() != 1 { return Ok(false); }
                match &m.funcs[0].body.0[0] {
                    Instr::Block(_, e) => Ok(e.0.len() == 2 && bits(&e.0[0], &mut o[0])),
                    _ => Ok(false),
                }
            })
        } else {
            let pre = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 6, 9, 1, 0x7d, 0, 0x43];
            run(4, &pre, &[0x0b], 4, 1, |c, o| {
                let m = c.parse::<Module>()?;
                Ok(m.globals.len() == 1 && m.globals[0].init.0.len() == 1 && bits(&m.globals[0].init.0[0], &mut o[0]))
            })
        }
    }
    /// `k` constants of either width in one expression, cut anywhere.
    fn c03_mix(k) {
        let mut b = Buf::new();
        for _ in 0..k {
            let op = byte();
            assume((op == 0x43) | (op == 0x44));
            b.u(op);
            b.sym(if op == 0x43 { 4 } else { 8 });
        }
        b.u(0x0b);
        b.n = crate::whole::choose(b.n + 1);
        let b = b.s();
        let mut c = Cur::new(b);
        let r = c.parse::<Expr>();
        let (mut p, mut want, mut done) = (0, [0u64; 4], false);
        let mut n = 0;
        while p < b.len() {
            let op = b[p];
            p += 1;
            if op == 0x0b {
                done = true;
                break;
            }
            match fixed(b, &mut p, if op == 0x43 { 4 } else { 8 }) {
                P::Val(x) => {
                    want[n] = x;
                    n += 1;
                }
                _ => break,
            }
        }
        match r {
            Ok(e) => {
                reach(1);
                check(10, done & (e.0.len() == n));
                for i in 0..n {
                    let mut x = 0;
                    let is = bits(&e.0[i], &mut x);
                    check(11, is & (x == want[i]));
                    obs(x);
                }
                check(12, c.pos == p);
            }
            Err(e) => {
                reach(2);
                check(13, !done & matches!(e, Error::UnexpectedEndOfFile));
            }
        }
    }
}
