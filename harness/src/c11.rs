//! Totality, memory use and reading behaviour on arbitrary bytes.

use crate::rt::*;
use crate::spec::{Mod, Rd};
use crate::whole::*;
use whasm::binary::{Byte, CompactVec, Consume, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse};
use whasm::structure::module::Module;
use whasm::structure::{instr, module, ty};
use whasm::validation::ValidationEntry;

/// What may be live at once while decoding `n` bytes.
fn cap(n: usize) {
    limit((1 << 20) + (n as u64) * (1 << 16));
}

/// Decoding must end in a value or an error, read nothing after the end, and release everything.
fn total<T: WasmBinaryParse>(b: &[u8]) {
    cap(b.len());
    let mut c = Cur::new(b);
    let r = c.parse::<T>();
    check(1, !c.after);
    reach(if r.is_ok() { 1 } else { 2 });
    obs(r.is_ok() as u64);
    obs(c.pos as u64);
    drop(r);
}

/// The same for a module, then validation.
fn whole(b: &[u8]) {
    cap(b.len());
    let mut c = Cur::new(b);
    let r = c.parse::<Module>();
    check(1, !c.after);
    match &r {
        Ok(m) => {
            reach(1);
            match m.validate() {
                Ok(e) => {
                    reach(3);
                    obs(3);
                    drop(e);
                }
                Err(_) => {
                    reach(4);
                    obs(4);
                }
            }
        }
        Err(_) => {
            reach(2);
            obs(2);
        }
    }
    drop(r);
}

/// Leaves out modules in which a function has many locals.
fn few(b: &[u8]) {
    let mut m = Mod::new();
    m.bound = MOST;
    m.syntax = true;
    let _ = m.module(b);
}

entries! {
    /// `n` free bytes decoded as one of the public types.
    fn c11_kind(k, n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        let b = b.s();
        match k {
            0 => total::<u64>(b),
            1 => total::<i64>(b),
            2 => total::<f64>(b),
            3 => total::<String>(b),
            4 => total::<Vec<u32>>(b),
            5 => total::<UnwrappingVec<Byte>>(b),
            6 => total::<Vec<Vec<i32>>>(b),
            7 => total::<Sized<Vec<Byte>>>(b),
            8 => total::<Sized<Consume>>(b),
            9 => total::<[u16; 8]>(b),
            10 => total::<ty::Func>(b),
            11 => total::<ty::Table>(b),
            12 => total::<ty::Global>(b),
            13 => total::<module::Import>(b),
            14 => total::<module::Export>(b),
            15 => total::<module::Global>(b),
            16 => total::<module::Elem>(b),
            17 => total::<module::Data>(b),
            18 => total::<instr::Instr>(b),
            19 => total::<instr::Expr>(b),
            20 => total::<instr::ConstExpr>(b),
            21 => total::<(String, Consume)>(b),
            22 => total::<u8>(b),
            23 => total::<i8>(b),
            24 => total::<u16>(b),
            25 => total::<i16>(b),
            26 => total::<Vec<String>>(b),
            27 => total::<Vec<f64>>(b),
            28 => total::<module::Start>(b),
            29 => total::<Vec<Vec<Vec<u8>>>>(b),
            _ => total::<Sized<Sized<Sized<u32>>>>(b),
        }
    }
    /// A declared count of any five-byte value, with `n` free bytes behind it.
    fn c11_count(k, n) {
        let mut b = Buf::new();
        b.num(5);
        b.sym(n as usize);
        let b = b.s();
        match k {
            0 => total::<Vec<u32>>(b),
            1 => total::<UnwrappingVec<Byte>>(b),
            2 => total::<String>(b),
            3 => total::<Vec<Vec<u64>>>(b),
            4 => total::<Sized<Vec<u8>>>(b),
            5 => total::<Vec<instr::Instr>>(b),
            6 => total::<Vec<ty::Func>>(b),
            7 => total::<Vec<module::Data>>(b),
            8 => total::<UnwrappingVec<Sized<u32>>>(b),
            9 => total::<CompactVec<f64>>(b),
            _ => total::<Vec<String>>(b),
        }
    }
    /// Run-length sequences: any lengths whose total is small or over the limit.
    fn c11_runs(n, most) {
        let mut b = Buf::new();
        b.sym(n as usize);
        let b = b.s();
        // the total, as far as it can be told
        let mut r = Rd::new(b);
        let mut sum = 0u64;
        if let Some(k) = r.u32() {
            for _ in 0..k {
                match r.u32() {
                    Some(x) => {
                        sum += x as u64;
                        if sum > 0xffff_ffff || r.u32().is_none() { break; }
                        assume(sum <= most);
                    }
                    None => break,
                }
            }
        }
        total::<CompactVec<u32>>(b);
    }
    /// Anything at all.
    fn c11_any(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        whole(b.s());
    }
    /// Anything after the preamble.
    fn c11_free(n) {
        let mut b = Buf::module();
        b.sym(n as usize);
        few(b.s());
        whole(b.s());
    }
    /// A section with a five-byte count and `n` free bytes.
    fn c11_section(id, n) {
        let mut b = Buf::module();
        b.u(id as u8).u(n as u8 + 5).num(5).sym(n as usize);
        few(b.s());
        whole(b.s());
    }
    /// `k` free bytes anywhere in the populated module.
    fn c11_mutate(k, lo, hi) {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        let lo = cut[lo as usize];
        let n = cut[hi as usize] - lo;
        let at = lo + choose(n);
        let to = if at + k as usize > b.n { b.n } else { at + k as usize };
        sym(&mut b.b[at..to]);
        few(b.s());
        whole(b.s());
    }
    /// A function body of `n` free bytes, in a module with everything a body can refer to.
    fn c11_body(n, nr) {
        let mut b = Buf::module();
        b.sec(1, &[2, 0x60, 1, 0x7f, 0, 0x60, 0, 1, 0x7e]);
        b.sec(2, &[1, 0, 0, 0, 1]);
        b.sec(3, &[1, nr as u8]);
        b.sec(4, &[1, 0x70, 0, 1]);
        b.sec(5, &[1, 0, 1]);
        b.sec(6, &[1, 0x7d, 1, 0x43, 0, 0, 0, 0, 0x0b]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.put(&[1, 1, 0x7c]);
        b.sym(n as usize).u(0x0b);
        b.close(f);
        b.close(s);
        whole(b.s());
    }
    /// Any opcode with one index (`two` 0) or two numbers (1) of `w` bytes, in a nest of two blocks.
    fn c11_wide(two, w) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 1, 0x7f, 0]);
        b.sec(3, &[1, 0]);
        b.sec(4, &[1, 0x70, 0, 1]);
        b.sec(5, &[1, 0, 1]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.put(&[0, 0x02, 0x40, 0x03, 0x40, 0x20, 0]);
        let op = byte();
        if two == 0 {
            assume((op == 0x0c) | (op == 0x0d) | (op == 0x10) | ((op >= 0x20) & (op <= 0x24)) | (op == 0x3f) | (op == 0x40));
            b.u(op).num(w as usize);
        } else {
            assume((op == 0x11) | ((op >= 0x28) & (op <= 0x3e)));
            b.u(op).num(w as usize).num(w as usize);
        }
        b.put(&[0x0b, 0x0b, 0x0b]);
        b.close(f);
        b.close(s);
        whole(b.s());
    }
    /// A label table of `k` entries with labels of `w` bytes.
    fn c11_table(k, w) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]);
        b.sec(3, &[1, 0]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.put(&[0, 0x02, 0x40, 0x41, 0, 0x0e]).u(k as u8);
        for _ in 0..k + 1 { b.num(w as usize); }
        b.put(&[0x0b, 0x0b]);
        b.close(f);
        b.close(s);
        whole(b.s());
    }
    /// Indices and limits of five bytes in every place outside of bodies.
    fn c11_indices(at) {
        let b = indices(at, 5);
        whole(b.s());
    }
    /// Known finding, run natively only: `n` nested blocks.
    fn c11_deep(n) {
        let mut v: Vec<u8> = Vec::new();
        for _ in 0..n { v.push(2); v.push(0x40); }
        for _ in 0..n + 1 { v.push(0x0b); }
        let r = v.iter().copied().parse::<instr::Expr>();
        obs(r.is_ok() as u64);
    }
    /// Known finding, run natively only: one run of 2^28 locals.
    fn c11_locals() {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]).sec(3, &[1, 0]);
        b.sec(10, &[1, 8, 1, 0x80, 0x80, 0x80, 0x80, 0x01, 0x7f, 0x0b]);
        whole(b.s());
    }
    /// Modules with `n` parts of a kind and a symbolic byte, or a number near the ends, behind them.
    fn c11_big(n, what) {
        let mut t = Long::new();
        t.u(1).u(0x60);
        if what == 5 {
            t.leb(n);
            for _ in 0..n { t.u(0x7f); }
            t.u(0);
        } else {
            t.u(0).u(0);
        }
        let mut body = Long::new();
        if what == 2 { body.u(1).leb(n).u(0x7f); } else { body.u(0); }
        let near = |b: &mut Long| {
            let x = b.num();
            assume((x < 4) | (x + 4 > n) & (x < n + 4) | (x == 256) | (x == 65536));
        };
        match what {
            0 => {
                for _ in 0..n { body.u(0x02).u(0x40); }
                body.u(0x0c);
                near(&mut body);
                for _ in 0..n { body.u(0x0b); }
            }
            1 => {
                for _ in 0..n { body.u(0x01); }
                body.u(byte());
            }
            2 => {
                body.u(0x20);
                near(&mut body);
                body.u(0x1a);
            }
            3 => {
                for _ in 0..n { body.u(0x41).u(0); }
                body.u(byte());
                for _ in 0..n { body.u(0x1a); }
            }
            4 => {
                body.put(&[0x41, 0, 0x0e]).leb(n);
                for _ in 0..n { body.u(0); }
                body.u(byte());
            }
            5 => {
                for _ in 0..n { body.u(0x41).u(0); }
                body.u(byte()).u(0);
            }
            _ => {}
        }
        body.u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.sec(1, &t);
        let mut s = Long::new();
        s.leb(n);
        match what {
            6 => {
                for _ in 1..n { s.put(&[0, 0, 3, 0x7f, 0]); }
                s.put(&[0, 0]).u(byte()).put(&[0x7f, 0]);
                b.sec(2, &s);
            }
            _ => {}
        }
        b.put(&[3, 2, 1, 0]);
        match what {
            7 => {
                for _ in 1..n { s.put(&[0x7f, 0, 0x41, 0, 0x0b]); }
                s.put(&[0x7f, 0]).u(byte()).put(&[0, 0x0b]);
                b.sec(6, &s);
            }
            8 => {
                for i in 1..n { s.put(&[4, b'a' + (i & 15) as u8, b'a' + (i >> 4 & 15) as u8, b'a' + (i >> 8 & 15) as u8, b'a' + (i >> 12) as u8, 0, 0]); }
                s.put(&[1, b'z', 0]);
                near(&mut s);
                b.sec(7, &s);
            }
            9 => {
                let mut e = Long::new();
                e.put(&[1, 0, 0x41, 0, 0x0b]).put(s.s());
                for _ in 1..n { e.u(0); }
                near(&mut e);
                b.put(&[4, 4, 1, 0x70, 0, 1]).sec(9, &e);
            }
            _ => {}
        }
        b.sec(10, &code);
        whole(b.s());
    }
}
