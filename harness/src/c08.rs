//! Block structure.

use crate::c07::{expr, one};
use crate::rt::*;
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::binary::WasmBinary;

/// A symbolic choice made concrete.
pub fn choose(n: u8) -> u8 {
    let k = byte();
    assume(k < n);
    let mut i = 0;
    while i < n {
        if k == i {
            return i;
        }
        i += 1;
    }
    0
}

/// Two-byte tokens of the structural alphabet.
const TOK: [[u8; 2]; 8] = [[0x02, 0x40], [0x03, 0x7f], [0x04, 0x7e], [0x05, 0x01], [0x0b, 0x01], [0x1a, 0x01], [0x04, 0x40], [0x02, 0x7c]];

entries! {
    fn c08_free(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        expr(b.s());
    }
    fn c08_const_free(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        let mut c = Cur::new(b.s());
        let r = c.parse::<ConstExpr>();
        let mut m = crate::spec::Mod::new();
        let mut rd = crate::spec::Rd::new(b.s());
        let want = m.expr(&mut rd, false, false, 0).is_some();
        match &r {
            Ok(e) => {
                reach(1);
                let mut t = crate::tr::Tr::new();
                crate::flat::expr(&mut t, &e.0);
                check(21, want & t.same(&m.t) & (c.pos == rd.p));
            }
            Err(_) => {
                reach(2);
                check(22, !want)
            }
        }
    }
    /// Block opener (any of the three) with anything after it.
    fn c08_one(op, n) {
        let mut b = Buf::new();
        b.u(op as u8).sym(n as usize);
        one(b.s());
    }
    /// `n` tokens chosen from the first `k` of the structural alphabet, then end markers.
    fn c08_tokens(n, k, ends) {
        let mut b = Buf::new();
        for _ in 0..n {
            let o = byte();
            let x = byte();
            let mut any = false;
            for i in 0..k as usize {
                any |= (o == TOK[i][0]) & (x == TOK[i][1]);
            }
            assume(any);
            b.u(o).u(x);
        }
        for _ in 0..ends { b.u(0x0b); }
        expr(b.s());
    }
    /// A nest of `d` constructs, `k` symbolic bytes at a symbolic place.
    fn c08_nest(d, k, pat) {
        let mut b = Buf::new();
        for i in 0..d {
            let op = match pat { 0 => 2, 1 => 3, 2 => 4, _ => 2 + (i % 3) as u8 };
            b.u(op).u(if i % 2 == 0 { 0x40 } else { 0x7d }).u(0x01);
        }
        for i in (0..d).rev() {
            let op = match pat { 0 => 2, 1 => 3, 2 => 4, _ => 2 + (i % 3) as u8 };
            b.u(0x1a);
            if op == 4 && i % 2 == 0 { b.u(0x05).u(0x0f); }
            b.u(0x0b);
        }
        b.u(0x1b).u(0x0b).u(0x77);
        let n = b.n as u8;
        let at = choose(n - k as u8) as usize;
        sym(&mut b.b[at..at + k as usize]);
        expr(b.s());
    }
    /// A long flat body of `n` two-armed conditionals, symbolic bytes at a symbolic place.
    fn c08_flat(n, k) {
        let mut b = Buf::new();
        for _ in 0..n { b.put(&[0x04, 0x40, 0x01, 0x05, 0x1a, 0x0b, 0x0f]); }
        b.u(0x0b).u(0x01);
        let at = choose(b.n as u8 - k as u8) as usize;
        sym(&mut b.b[at..at + k as usize]);
        expr(b.s());
    }
    /// `n` instructions in a row, or as many conditionals inside one another, then a symbolic byte.
    fn c08_big(n, deep) {
        let mut b = Long::new();
        for _ in 0..n {
            if deep == 0 { b.u(0x01); } else if deep == 1 { b.u(0x02).u(0x40); } else { b.u(0x04).u(0x40); }
        }
        for i in 0..if deep == 0 { 0 } else { n } {
            if deep == 2 && i % 2 == 0 { b.u(0x05); }
            b.u(0x0b);
        }
        let x = byte();
        assume((x == 0x01) | (x == 0x05) | (x == 0x0b) | (x == 0x00));
        b.u(x);
        let end = b.0.len();
        b.u(0x0b);
        let mut c = Cur::new(b.s());
        match c.parse::<Expr>() {
            Ok(Expr(v)) => {
                reach(1);
                check(30, x != 0x05);
                let more = (x != 0x0b) as usize;
                check(31, c.pos == end + more);
                check(32, v.len() == if deep == 0 { n as usize } else { 1 } + more);
                // down to the innermost one, whose content is empty
                let mut k = 0;
                let mut at = &v;
                while let Some(Instr::Block(_, Expr(e))) | Some(Instr::If(_, Expr(e), _)) = at.get(0) {
                    at = e;
                    k += 1;
                    check(33, at.len() == (k < n) as usize);
                }
                check(34, k == if deep == 0 { 0 } else { n });
                obs(v.len() as u64);
            }
            Err(_) => {
                reach(2);
                check(35, x == 0x05);
            }
        }
    }
}
