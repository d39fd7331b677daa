//! Functions against their signatures and locals.

use crate::rt::*;
use crate::whole::*;

/// local.get of a small index, a constant, drop, return, unreachable or nop.
fn tok(b: &mut Buf, nl: u8) {
    let o = byte();
    let x = byte();
    assume(
        ((o == 0x20) & (x < nl))
            | (((o == 0x41) | (o == 0x42)) & (x == 0))
            | (((o == 0x1a) | (o == 0x0f) | (o == 0x00) | (o == 0x01)) & (x == 1)),
    );
    b.u(o).u(x);
}

entries! {
    /// One function of `np` parameters and `nr` results, a run of locals, `k` tokens.
    fn c15_one(np, nr, k) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        b.sec(3, &[1, 0]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.u(1).u(below(3)).u(vt());
        for _ in 0..k { tok(&mut b, np as u8 + 3); }
        b.u(0x0b);
        b.close(f);
        b.close(s);
        verdict(b.s());
    }
    /// `nf` functions of any declared or undeclared type, each with its own locals and `k` tokens.
    fn c15_multi(nf, k) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(1, 0).ftype(0, 1);
        b.close(s);
        let s = b.open(Some(3));
        b.u(nf as u8);
        for _ in 0..nf { b.u(below(3)); }
        b.close(s);
        let s = b.open(Some(10));
        b.u(nf as u8);
        for _ in 0..nf {
            let f = b.open(None);
            b.u(1).u(below(3)).u(vt());
            for _ in 0..k { tok(&mut b, 4); }
            b.u(0x0b);
            b.close(f);
        }
        b.close(s);
        verdict(b.s());
    }
    /// `nf` functions, one of which (any position) has a symbolic body of `k` bytes.
    fn c15_position(nf, k) {
        let mut b = Buf::module();
        b.sec(1, &[2, 0x60, 1, 0x7f, 1, 0x7f, 0x60, 0, 0]);
        let at = choose(nf as usize);
        let s = b.open(Some(3));
        b.u(nf as u8);
        for i in 0..nf { b.u((i & 1) as u8); }
        b.close(s);
        let s = b.open(Some(10));
        b.u(nf as u8);
        for i in 0..nf {
            let f = b.open(None);
            b.u(0);
            if i as usize == at {
                for _ in 0..k { tok(&mut b, 2); }
            } else if i & 1 == 0 {
                b.put(&[0x20, 0]);
            }
            b.u(0x0b);
            b.close(f);
        }
        b.close(s);
        verdict(b.s());
    }
    /// Locals in `k` runs of fixed lengths and symbolic types; one access with an index of `w` bytes.
    fn c15_runs(k, len, w) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(2, 1);
        b.close(s);
        b.sec(3, &[1, 0]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.u(k as u8);
        for _ in 0..k { b.leb(len as u32).u(vt()); }
        b.u(0x20).num(w as usize).u(0x0b);
        b.close(f);
        b.close(s);
        verdict(b.s());
    }
    /// Own functions behind `ni` imported ones: types, locals and results stay their own.
    fn c15_imports(ni, k) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(1, 1).ftype(2, 0);
        b.close(s);
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { b.put(&[0, 0, 0]).u(below(2)); }
        b.close(s);
        let s = b.open(Some(3));
        b.u(2).u(below(3)).u(below(3));
        b.close(s);
        let s = b.open(Some(10));
        b.u(2);
        for _ in 0..2 {
            let f = b.open(None);
            b.u(0);
            for _ in 0..k { tok(&mut b, 3); }
            b.u(0x0b);
            b.close(f);
        }
        b.close(s);
        verdict(b.s());
    }
    /// What one function leaves behind must not help the next: the first ends in any of several
    /// ways, the second needs operands, labels or locals it does not have.
    fn c15_leak(k) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(1, 1).u(0x60).u(0).u(0);
        b.close(s);
        b.sec(3, &[3, 0, 1, 0]);
        let s = b.open(Some(10));
        b.u(3);
        for i in 0..3 {
            let f = b.open(None);
            b.u(i % 2).put(&[1, 0x7f][..if i == 1 { 2 } else { 0 }]);
            if i != 1 {
                b.put(&[0x20, 0]);
                let o = byte();
                assume((o == 0x01) | (o == 0x00) | (o == 0x0f));
                b.u(o);
            } else {
                for _ in 0..k {
                    let (o, x) = (byte(), byte());
                    assume((((o == 0x1a) | (o == 0x0f) | (o == 0x00)) & (x == 1)) | (((o == 0x0c) | (o == 0x0d) | (o == 0x20) | (o == 0x21)) & (x < 3)));
                    b.u(o).u(x);
                }
            }
            b.u(0x0b);
            b.close(f);
        }
        b.close(s);
        verdict(b.s());
    }
    /// One of `n` locals of one type, declared in one run or many, behind parameters of another; or one of `n`
    /// parameters.
    fn c15_big(n, how) {
        let mut t = Long::new();
        t.u(1).u(0x60);
        if how == 2 {
            t.leb(n);
            for _ in 0..n { t.u(0x7e); }
        } else {
            t.u(2).u(0x7f).u(0x7f);
        }
        t.u(1).u(0x7e);
        let mut body = Long::new();
        match how {
            0 => { body.u(2).leb(n).u(0x7e).u(1).u(0x7d); }
            1 => {
                body.leb(n);
                for _ in 0..n { body.u(1).u(0x7e); }
            }
            _ => { body.u(1).u(1).u(0x7d); }
        }
        body.u(0x20);
        let i = body.num();
        assume((i < 9) | (i + 9 > n));
        body.u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.sec(1, &t).put(&[3, 2, 1, 0]).sec(10, &code);
        long(&b, if how == 2 { i < n } else { (i >= 2) & (i < n + 2) });
    }
    /// `n` functions, every other one with a result; a call of any of them.
    fn c15_big_call(n) {
        let mut f = Long::new();
        let mut code = Long::new();
        f.leb(n + 1);
        code.leb(n + 1);
        let mut body = Long::new();
        body.u(0).u(0x10);
        let k = body.num();
        assume((k < 9) | (k + 9 > n) | (k & 0xff < 3));
        body.u(0x0b);
        for i in 0..n {
            f.u((i % 2) as u8);
            if i % 2 == 0 { code.put(&[2, 0, 0x0b]); } else { code.put(&[4, 0, 0x41, 0, 0x0b]); }
        }
        f.u(1);
        code.leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.put(&[1, 8, 2, 0x60, 0, 0, 0x60, 0, 1, 0x7f]).sec(3, &f).sec(10, &code);
        long(&b, ((k < n) & (k % 2 == 1)) | (k == n));
    }
}
