//! Module-level constraints.

use crate::rt::*;
use whasm::validation::ValidationEntry;
use whasm::structure::module::Module;
use whasm::binary::WasmBinary;
use crate::whole::*;

/// A kind of import with small fixed limits.
fn import(b: &mut Buf, kind: u8) {
    b.put(&[0, 0]).u(kind);
    match kind {
        0 => b.u(0),
        1 => b.put(&[0x70, 0, 1]),
        2 => b.put(&[0, 1]),
        _ => b.put(&[0x7f, 0]),
    };
}

/// Verdict on a long module.
fn long(b: &Long, want: bool) {
    let got = match Cur::new(b.s()).parse::<Module>() {
        Ok(m) => m.validate().is_ok(),
        Err(_) => false,
    };
    check(60, got == want);
    if got { reach(1); } else { reach(2); }
    obs(got as u64);
}

entries! {
    /// Limits of a table (`kind` 1) or memory (2), imported or own, numbers of `w1` and `w2` bytes.
    fn c17_limits(kind, own, w1, w2) {
        let mut b = Buf::module();
        let s = if own == 1 { b.open(Some(kind as u8 + 3)) } else { b.open(Some(2)) };
        b.u(1);
        if own == 0 { b.put(&[0, 0]).u(kind as u8); }
        if kind == 1 { b.u(0x70); }
        b.u((w2 > 0) as u8).num(w1 as usize);
        if w2 > 0 { b.num(w2 as usize); }
        b.close(s);
        verdict(b.s());
    }
    /// Up to `k` imports of any kind and `nt` tables and `nm` memories of its own.
    fn c17_count(k, nt, nm) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]);
        let s = b.open(Some(2));
        b.u(k as u8);
        for _ in 0..k { import(&mut b, choose(4) as u8); }
        b.close(s);
        let s = b.open(Some(4));
        b.u(nt as u8);
        for _ in 0..nt { b.put(&[0x70, 0, 1]); }
        b.close(s);
        let s = b.open(Some(5));
        b.u(nm as u8);
        for _ in 0..nm { b.put(&[0, 1]); }
        b.close(s);
        verdict(b.s());
    }
    /// Own tables or memories: each one's limits count.
    fn c17_each(kind) {
        let mut b = Buf::module();
        let s = b.open(Some(2));
        b.u(1).put(&[0, 0]).u(kind as u8);
        if kind == 1 { b.u(0x70); }
        b.u(1).num(1).num(1);
        b.close(s);
        let s = b.open(Some(6 - kind as u8));
        b.u(1);
        if kind == 2 { b.u(0x70); }
        b.u(1).num(1).num(1);
        b.close(s);
        verdict(b.s());
    }
    /// Function types with `a`, `b` and `c` results, whether used or not.
    fn c17_results(a, b_, c) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(3).ftype(1, a as usize).ftype(0, b_ as usize).ftype(2, c as usize);
        b.close(s);
        let s = b.open(Some(2));
        b.u(1).put(&[0, 0, 0]).u(below(4));
        b.close(s);
        verdict(b.s());
    }
    /// `k` exports of one entity each with names of `len` bytes.
    fn c17_names(k, len) {
        let mut b = Buf::module();
        b.sec(5, &[1, 0, 1]);
        let s = b.open(Some(7));
        b.u(k as u8);
        for _ in 0..k {
            b.u(len as u8).sym(len as usize);
            for j in 0..len as usize { assume(b.b[b.n - 1 - j] < 0x80); }
            b.u(2).u(0);
        }
        b.close(s);
        verdict(b.s());
    }
    /// Names of different lengths, one a prefix of the other.
    fn c17_prefix(k) {
        let mut b = Buf::module();
        b.sec(5, &[1, 0, 1]);
        let s = b.open(Some(7));
        b.u(k as u8);
        for i in 0..k {
            let len = (i % 3) as usize;
            b.u(len as u8).sym(len);
            for j in 0..len { assume(b.b[b.n - 1 - j] < 0x80); }
            b.u(2).u(0);
        }
        b.close(s);
        verdict(b.s());
    }
    /// Names of two bytes that may be any text, and kinds that differ.
    fn c17_names_kinds() {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]).sec(2, &[1, 0, 0, 0, 0]).sec(4, &[1, 0x70, 0, 1]).sec(5, &[1, 0, 1]);
        let s = b.open(Some(7));
        b.u(3);
        for _ in 0..3 { b.u(2).sym(2).u(below(3)).u(0); }
        b.close(s);
        verdict(b.s());
    }
    /// Exports of any kind with an index of `w` bytes in a module with `n` of each kind (one table
    /// and memory at most).
    fn c17_export(n, w) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]);
        let s = b.open(Some(2));
        b.u(n as u8);
        for _ in 0..n { import(&mut b, 0); }
        b.close(s);
        if n > 0 { b.sec(4, &[1, 0x70, 0, 1]).sec(5, &[1, 0, 1]); }
        let s = b.open(Some(6));
        b.u(n as u8);
        for _ in 0..n { b.put(&[0x7f, 0, 0x41, 0, 0x0b]); }
        b.close(s);
        let s = b.open(Some(7));
        b.u(2);
        for i in 0..2 { b.u(1).u(b'a' + i).u(below(4)).num(w as usize); }
        b.close(s);
        verdict(b.s());
    }
    /// Start function given by an index of `w` bytes among imported and own functions of symbolic
    /// type.
    fn c17_start(w) {
        let mut b = Buf::module();
        b.sec(1, &[4, 0x60, 0, 0, 0x60, 1, 0x7f, 0, 0x60, 0, 1, 0x7f, 0x60, 1, 0x7e, 1, 0x7f]);
        let s = b.open(Some(2));
        b.u(1).put(&[0, 0, 0]).u(below(4));
        b.close(s);
        let s = b.open(Some(3));
        b.u(2).u(below(4)).u(below(4));
        b.close(s);
        let s = b.open(Some(8));
        b.num(w as usize);
        b.close(s);
        b.sec(10, &[2, 3, 0, 0, 0x0b, 3, 0, 0, 0x0b]);
        verdict(b.s());
    }
    /// An index of five bytes in one place outside of bodies, one-byte symbolic ones elsewhere.
    fn c17_indices(at, w) {
        let mut b = indices(at, w as usize);
        verdict(b.s());
    }
    /// Element segments: any function and table indices.
    fn c17_elem(table, k) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]);
        let s = b.open(Some(2));
        b.u(1 + (table == 1) as u8);
        import(&mut b, 0);
        if table == 1 { import(&mut b, 1); }
        b.close(s);
        b.sec(3, &[1, 0]);
        if table == 2 { b.sec(4, &[1, 0x70, 0, 1]); }
        let s = b.open(Some(9));
        b.u(2);
        for i in 0..2 {
            b.num(1).put(&[0x41, 0, 0x0b]).u(k as u8);
            for _ in 0..k { b.u(below(4)); }
        }
        b.close(s);
        b.sec(10, &[1, 2, 0, 0x0b]);
        verdict(b.s());
    }
    /// Data segments: any memory indices, any bytes.
    fn c17_data(mem, k) {
        let mut b = Buf::module();
        let s = b.open(Some(2));
        b.u((mem == 1) as u8);
        if mem == 1 { import(&mut b, 2); }
        b.close(s);
        if mem == 2 { b.sec(5, &[1, 0, 1]); }
        let s = b.open(Some(11));
        b.u(2);
        for _ in 0..2 { b.num(1).put(&[0x41, 0, 0x0b]).u(k as u8).sym(k as usize); }
        b.close(s);
        verdict(b.s());
    }
    /// Any `n` bytes after the preamble.
    fn c17_free(n) {
        let mut b = Buf::module();
        b.sym(n as usize);
        verdict_bounded(b.s());
    }
    /// `k` symbolic bytes anywhere in sections `lo`..`hi` of a populated, valid module.
    fn c17_mutate(k, lo, hi) {
        let mut cut = [0; 13];
        let mut b = full(&mut cut);
        let lo = cut[lo as usize];
        let n = cut[hi as usize] - lo;
        let at = lo + choose(n);
        let to = if at + k as usize > b.n { b.n } else { at + k as usize };
        sym(&mut b.b[at..to]);
        verdict_bounded(b.s());
    }
    /// Any one section left out.
    fn c17_without() {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let i = 1 + choose(11);
        let mut b = Buf::new();
        b.put(&f.b[..cut[i]]).put(&f.b[cut[i + 1]..f.n]);
        verdict(b.s());
    }
    /// `n` exports with different names and one with a name that starts with one of two letters.
    fn c17_big(n, from, at) {
        let mut s = Long::new();
        s.leb(n + 1);
        for i in 0..n { s.u(2).u(b'a' + (i / 26) as u8).u(b'a' + (i % 26) as u8).u(0).u(0); }
        let (x, y) = (b'a' + from as u8 + below(2), b'a' + at as u8);
        s.u(2).u(x).u(y).u(0).u(0);
        let mut b = Long::module();
        b.put(&[1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0]).sec(7, &s).put(&[10, 4, 1, 2, 0, 0x0b]);
        long(&b, (x - b'a') as u64 * 26 + (y - b'a') as u64 >= n);
    }
    /// The start function, an element and an export among `n` functions, all of any index.
    fn c17_big_index(n, at) {
        let mut f = Long::new();
        let mut code = Long::new();
        f.leb(n);
        code.leb(n);
        for _ in 0..n {
            f.u(0);
            code.put(&[2, 0, 0x0b]);
        }
        let mut x = Long::new();
        let k;
        match at {
            7 => { x.u(1).u(0).u(0); k = x.num(); }
            8 => k = x.num(),
            _ => { x.put(&[1, 0, 0x41, 0, 0x0b, 2, 0]); k = x.num(); }
        }
        let mut b = Long::module();
        b.put(&[1, 4, 1, 0x60, 0, 0]).sec(3, &f).put(&[4, 4, 1, 0x70, 0, 0]).sec(at as u8, &x).sec(10, &code);
        long(&b, k < n);
    }
}
