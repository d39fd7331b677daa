//! Variable, memory, table and call instructions.

use crate::rt::*;
use crate::whole::*;

fn gets(b: &mut Buf, np: u64) {
    for i in 0..np {
        b.u(0x20).u(i as u8);
    }
}

/// An imported global of symbolic type and mutability.
fn iglobal(b: &mut Buf) {
    b.put(&[0, 0, 3]).u(vt()).u(below(2));
}

/// An own global of symbolic type and mutability with a matching initialiser (an immutable global
/// cannot be chosen here, so the initialiser is a constant picked by the type).
fn global(b: &mut Buf) {
    let t = vt();
    let m = below(2);
    b.u(t).u(m);
    if t == 0x7f {
        b.put(&[0x41, 0]);
    } else if t == 0x7e {
        b.put(&[0x42, 0]);
    } else if t == 0x7d {
        b.put(&[0x43, 0, 0, 0, 0]);
    } else {
        b.put(&[0x44, 0, 0, 0, 0, 0, 0, 0, 0]);
    }
    b.u(0x0b);
}

/// Code section with one body.
fn code(b: &mut Buf, f: impl FnOnce(&mut Buf)) {
    let s = b.open(Some(10));
    b.u(1);
    let e = b.open(None);
    f(b);
    b.u(0x0b);
    b.close(e);
    b.close(s);
}

/// Where a memory or table comes from: 0 nowhere, 1 imported, 2 own.
fn import(b: &mut Buf, mem: u64, table: u64) {
    let s = b.open(Some(2));
    b.u((mem == 1) as u8 + (table == 1) as u8);
    if mem == 1 { b.put(&[0, 0, 2, 0, 1]); }
    if table == 1 { b.put(&[0, 0, 1, 0x70, 0, 1]); }
    b.close(s);
}

entries! {
    /// Local access; `np` parameters and two runs of locals; `dead` code or not.
    fn c14_local(np, w, nr, dead) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        b.sec(3, &[1, 0]);
        code(&mut b, |b| {
            b.u(2).u(below(3)).u(vt()).u(below(3)).u(vt());
            if dead == 1 { b.u(0); }
            gets(b, np);
            let o = byte();
            assume((o >= 0x20) & (o <= 0x22));
            b.u(o).num(w as usize);
        });
        verdict(b.s());
    }
    /// Several local accesses in a row, with small indices.
    fn c14_locals(np, k, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        b.sec(3, &[1, 0]);
        code(&mut b, |b| {
            b.u(1).u(1).u(vt());
            for _ in 0..k {
                let o = byte();
                assume((o >= 0x20) & (o <= 0x22));
                b.u(o).u(below(np as u8 + 2));
            }
        });
        verdict(b.s());
    }
    /// Global access; `ni` imported and `no` own globals.
    fn c14_global(ni, no, w, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(1, nr as usize);
        b.close(s);
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { iglobal(&mut b); }
        b.close(s);
        b.sec(3, &[1, 0]);
        let s = b.open(Some(6));
        b.u(no as u8);
        for _ in 0..no { global(&mut b); }
        b.close(s);
        code(&mut b, |b| {
            b.u(0);
            let o = byte();
            assume((o == 0x23) | (o == 0x24));
            let extra = byte();
            assume((extra == 0x20) | (extra == 0x42) | (extra == 0x41));
            b.u(extra).u(0).u(o).num(w as usize);
        });
        verdict(b.s());
    }
    /// Globals in code that cannot be reached, and reads feeding writes.
    fn c14_global_dead(ni, how) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]);
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { iglobal(&mut b); }
        b.close(s);
        b.sec(3, &[1, 0]);
        code(&mut b, |b| {
            b.u(0);
            if how == 0 { b.u(0); } else { b.u(0x23).u(below(ni as u8 + 1)); }
            b.u(0x24).u(below(ni as u8 + 1));
        });
        verdict(b.s());
    }
    /// Call of function `num(w)`; the module imports `ni` functions of the types 0..; parameters
    /// `np` of the caller are the operands.
    fn c14_call(ni, np, w, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(3).ftype(np as usize, nr as usize).ftype(1, 1).ftype(2, 0);
        b.close(s);
        let s = b.open(Some(2));
        b.u(ni as u8);
        for _ in 0..ni { b.put(&[0, 0, 0]).u(below(3)); }
        b.close(s);
        b.sec(3, &[1, 0]);
        code(&mut b, |b| {
            b.u(0);
            gets(b, np);
            b.u(0x10).num(w as usize);
        });
        verdict(b.s());
    }
    /// Indirect call: table from `table`, type index of `w` bytes, table index of one byte.
    fn c14_indirect(table, np, w, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(np as usize, nr as usize).ftype(1, 1);
        b.close(s);
        import(&mut b, 0, table);
        b.sec(3, &[1, 0]);
        if table == 2 { b.sec(4, &[1, 0x70, 0, 0]); }
        code(&mut b, |b| {
            b.u(0);
            gets(b, np);
            b.u(0x11).num(w as usize).num(1);
        });
        verdict(b.s());
    }
    /// Table index of an indirect call in several bytes.
    fn c14_indirect_wide(table, w) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(1, 0);
        b.close(s);
        import(&mut b, 0, table);
        b.sec(3, &[1, 0]);
        if table == 2 { b.sec(4, &[1, 0x70, 0, 0]); }
        code(&mut b, |b| {
            b.u(0);
            b.put(&[0x20, 0, 0x41, 0, 0x11, 0]).num(w as usize);
        });
        verdict(b.s());
    }
    /// Calls in code that cannot be reached, results used.
    fn c14_call_dead(how, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(2, 1).ftype(1, nr as usize);
        b.close(s);
        b.sec(3, &[1, 1]);
        b.sec(4, &[1, 0x70, 0, 0]);
        code(&mut b, |b| {
            b.u(0);
            b.u(0);
            if how & 1 == 1 { b.u(0x20).u(0); }
            if how & 2 == 0 { b.u(0x10).u(0); } else { b.u(0x11).u(below(2)).u(0); }
            let o = byte();
            assume((o == 0x01) | (o == 0x1a) | (o == 0x45) | (o == 0x8c));
            b.u(o);
        });
        verdict(b.s());
    }
    /// Loads and stores: memory from `mem`, alignment of `w` bytes, offset of `v` bytes.
    fn c14_mem(mem, np, w, v) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        let nr = if v & 1 == 1 { 1 } else { 0 };
        b.u(1).ftype(np as usize, nr);
        b.close(s);
        import(&mut b, mem, 0);
        b.sec(3, &[1, 0]);
        if mem == 2 { b.sec(5, &[1, 0, 1]); }
        code(&mut b, |b| {
            b.u(0);
            gets(b, np);
            let o = byte();
            assume((o >= 0x28) & (o <= 0x3e));
            b.u(o).num(w as usize).num(if v >= 2 { 5 } else { 1 });
        });
        verdict(b.s());
    }
    /// A load or store in code that cannot be reached, its result used.
    fn c14_mem_dead(np, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        b.sec(3, &[1, 0]);
        b.sec(5, &[1, 0, 1]);
        code(&mut b, |b| {
            b.u(0);
            b.u(0);
            gets(b, np);
            let o = byte();
            assume((o >= 0x28) & (o <= 0x3e));
            b.u(o).num(1).u(0);
        });
        verdict(b.s());
    }
    /// Memory size and growth.
    fn c14_grow(mem, np, w, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        import(&mut b, mem, 0);
        b.sec(3, &[1, 0]);
        if mem == 2 { b.sec(5, &[1, 0, 1]); }
        code(&mut b, |b| {
            b.u(0);
            gets(b, np);
            let o = byte();
            assume((o == 0x3f) | (o == 0x40));
            b.u(o).num(w as usize);
        });
        verdict(b.s());
    }
    /// Two instructions of this property one after the other, one-byte immediates, in a module with
    /// everything.
    fn c14_pair(np, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2).ftype(np as usize, nr as usize).ftype(1, 1);
        b.close(s);
        let s = b.open(Some(2));
        b.u(2).put(&[0, 0, 0, 1]);
        iglobal(&mut b);
        b.close(s);
        b.sec(3, &[1, 0]);
        b.sec(4, &[1, 0x70, 0, 0]);
        b.sec(5, &[1, 0, 1]);
        code(&mut b, |b| {
            b.u(0);
            gets(b, np);
            for _ in 0..2 {
                let o = byte();
                let (x, y) = (byte(), byte());
                let one = ((o >= 0x20) & (o <= 0x24)) | (o == 0x10) | (o == 0x3f) | (o == 0x40);
                let two = (o == 0x11) | ((o >= 0x28) & (o <= 0x3e));
                assume((one & (x < 4) & (y == 1)) | (two & (x < 5) & (y < 2)));
                b.u(o).u(x).u(y);
            }
        });
        verdict(b.s());
    }
    /// A call of a function with `n` parameters, direct or through a table, one of the first or last parameters
    /// and one of the first or last operands of another type, with an operand more or less.
    fn c14_big(n, table) {
        let at = |k: usize| [0, 1, n - 2, n - 1][k];
        let (p, q) = (at(choose(4)), at(choose(4)));
        let more = choose(3);
        let mut t = Long::new();
        t.u(2).u(0x60).leb(n);
        for i in 0..n { t.u(if i == p { 0x7e } else { 0x7f }); }
        t.u(0).put(&[0x60, 0, 0]);
        let mut body = Long::new();
        body.u(0);
        let have = n + more as u64 - 1;
        for i in 0..have { body.u(if i == q { 0x42 } else { 0x41 }).u(0); }
        if table != 0 { body.put(&[0x41, 0, 0x11, 0, 0]); } else { body.put(&[0x10, 0]); }
        body.u(0x0b);
        let mut code = Long::new();
        code.u(2).put(&[2, 0, 0x0b]).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.sec(1, &t).put(&[3, 3, 2, 0, 1]).put(&[4, 4, 1, 0x70, 0, 1]).sec(10, &code);
        long(&b, (have == n) & (p == q));
    }
    /// One of `n` types in an indirect call, and one of `n` globals.
    fn c14_big_index(n, what) {
        let mut t = Long::new();
        t.leb(n + 1);
        for i in 0..n { if what != 0 { t.put(&[0x60, 0, 0]); } else if i % 2 == 0 { t.put(&[0x60, 0, 1, 0x7f]); } else { t.put(&[0x60, 0, 1, 0x7e]); } }
        t.put(&[0x60, 0, 0]);
        let mut g = Long::new();
        g.leb(n);
        for i in 0..n { g.u(0x7f).u((i % 2) as u8).put(&[0x41, 0, 0x0b]); }
        let mut body = Long::new();
        body.u(0).put(&[0x41, 0]);
        body.u(if what != 0 { 0x24 } else { 0x11 });
        let k = body.num();
        assume((k < 5) | (k + 5 > n) & (k < n + 5) | (k & 0xff < 3) & (k < 2 * n) | (k & 0xffff < 3));
        if what == 0 { body.put(&[0, 0x45, 0x1a]); }
        body.u(0x0b);
        let mut f = Long::new();
        f.u(1).leb(n);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.sec(1, &t).sec(3, &f).put(&[4, 4, 1, 0x70, 0, 1]).sec(6, &g).sec(10, &code);
        long(&b, (k < n) & ((k % 2 == 1) == (what != 0)));
    }
}
