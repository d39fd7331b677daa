//! Preamble and sections.

use crate::rt::*;
use whasm::structure::module::Module;
use whasm::binary::WasmBinary;
use crate::whole::*;

entries! {
    fn c09_preamble(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        decode(b.s());
    }
    /// Preamble with `at` symbolic bytes changed, then a populated module.
    fn c09_preamble_full() {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        sym(&mut b.b[..8]);
        decode(b.s());
    }
    /// Anything after the preamble.
    fn c09_free(n) {
        let mut b = Buf::module();
        b.sym(n as usize);
        decode_bounded(b.s());
    }
    /// Empty sections with any ids.
    fn c09_ids(k) {
        let mut b = Buf::module();
        for _ in 0..k {
            b.sym(1).u(1).u(0);
        }
        decode(b.s());
    }
    /// An empty section with any id at a place in a populated module.
    fn c09_insert(at) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let at = cut[at as usize];
        let mut b = Buf::new();
        b.put(&f.b[..at]).sym(1).u(1).u(0).put(&f.b[at..f.n]);
        decode(b.s());
    }
    /// A section of the populated module carries another id.
    fn c09_rename(at) {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        sym(&mut b.b[cut[at as usize]..cut[at as usize] + 1]);
        decode_bounded(b.s());
    }
    /// Two neighbouring sections swapped, or one left out, or one repeated.
    fn c09_order(how) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let i = 1 + choose(11);
        let mut b = Buf::new();
        b.put(&f.b[..cut[i]]);
        match how {
            0 => {
                if i < 11 {
                    b.put(&f.b[cut[i + 1]..cut[i + 2]]).put(&f.b[cut[i]..cut[i + 1]]).put(&f.b[cut[i + 2]..f.n]);
                }
            }
            1 => { b.put(&f.b[cut[i + 1]..f.n]); }
            2 => { b.put(&f.b[cut[i]..cut[i + 1]]).put(&f.b[cut[i]..f.n]); }
            _ => { b.put(&f.b[cut[i]..f.n]).put(&f.b[cut[i]..cut[i + 1]]); }
        }
        decode(b.s());
    }
    /// A custom section with symbolic size, name and payload at a place.
    fn c09_custom(at, n) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let at = cut[at as usize];
        let mut b = Buf::new();
        b.put(&f.b[..at]).u(0).sym(1);
        assume(b.b[at + 1] as u64 <= n + 1);
        b.sym(n as usize).put(&f.b[at..f.n]);
        decode_bounded(b.s());
    }
    /// Several custom sections around an otherwise empty module.
    fn c09_customs(k) {
        let mut b = Buf::module();
        for i in 0..k {
            b.u(0).u(4).u(1);
            b.sym(3);
            if i == 1 { b.sec(1, &[1, 0x60, 0, 0]); }
        }
        decode(b.s());
    }
    /// Every prefix of the populated module.
    fn c09_prefix() {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        b.n = choose(b.n + 1);
        decode(b.s());
    }
    /// Bytes after the populated module.
    fn c09_tail(n) {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        b.sym(n as usize);
        decode_bounded(b.s());
    }
    /// `nf` declared functions, `nc` bodies, symbolic type indices and count of bodies; bodies differ.
    fn c09_bodies(nf, nc, gap) {
        let mut b = Buf::module();
        b.sec(1, &[2, 0x60, 0, 0, 0x60, 1, 0x7f, 0]);
        if nf < 9 {
            b.u(3).u(1 + nf as u8).u(nf as u8).sym(nf as usize);
        }
        if gap == 1 { b.sec(6, &[0]); }
        if nc < 9 {
            let s = b.open(Some(10));
            b.sym(1);
            for _ in 0..nc {
                b.u(6).u(1).u(below(5)).u(vt()).sym(1).u(0x01).u(0x0b);
                let at = b.n - 3;
                assume((b.b[at] == 0) | (b.b[at] == 1) | (b.b[at] == 0x0f) | (b.b[at] == 0x1a));
            }
            b.close(s);
        }
        decode(b.s());
    }
    /// `k` symbolic bytes anywhere in the populated module.
    fn c09_mutate(k, lo, hi) {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        let lo = cut[lo as usize];
        let n = cut[hi as usize] - lo;
        let at = lo + choose(n);
        let to = if at + k as usize > b.n { b.n } else { at + k as usize };
        sym(&mut b.b[at..to]);
        decode_bounded(b.s());
    }
    /// `n` custom sections and as many functions, with as many bodies or with a few or a power of two more or less.
    fn c09_big(n) {
        let mut b = Long::module();
        for i in 0..n { b.u(0).u(3).u(1).u(b'a').u(i as u8); }
        let mut f = Long::new();
        f.leb(n);
        for _ in 0..n { f.u(0); }
        let k = [n - 1, n, n + 1, n - 256, n + 256, n + 65536][choose(6)];
        let mut g = Long::new();
        g.leb(k);
        for _ in 0..k { g.put(&[2, 0, 0x0b]); }
        b.put(&[1, 4, 1, 0x60, 0, 0]).sec(3, &f).sec(10, &g);
        match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => {
                reach(1);
                check(40, k == n);
                check(41, m.funcs.len() as u64 == n);
                obs(m.funcs.len() as u64);
            }
            Err(_) => {
                reach(2);
                check(42, k != n);
            }
        }
    }
}
