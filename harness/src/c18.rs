//! Index spaces and external types.

use crate::rt::*;
use whasm::structure::ty;
use whasm::validation::module::result::External;
use whasm::validation::ValidationEntry;
use whasm::structure::module::Module;
use whasm::binary::WasmBinary;
use crate::whole::*;

/// An import of the given kind with symbolic description.
fn import(b: &mut Buf, kind: usize) {
    b.put(&[1, b'm', 0]).u(kind as u8);
    match kind {
        0 => b.u(below(3)),
        1 => {
            let f = below(2);
            b.u(0x70).u(f).num(1);
            if f == 1 { b.num(1); }
            b
        }
        2 => {
            let f = below(2);
            b.u(f).num(1);
            if f == 1 { b.num(1); }
            b
        }
        _ => b.u(vt()).u(below(2)),
    };
}

/// Three function types, two of them with symbolic types in them.
fn types(b: &mut Buf) {
    let s = b.open(Some(1));
    b.u(3).ftype(1, 0).ftype(0, 1).u(0x60).u(0).u(0);
    b.close(s);
}

/// An own global, symbolic in mutability.
fn own(b: &mut Buf, t: u8) {
    b.u(t).u(below(2));
    match t {
        0x7f => b.put(&[0x41, 1, 0x0b]),
        0x7e => b.put(&[0x42, 1, 0x0b]),
        _ => b.put(&[0x44, 0, 0, 0, 0, 0, 0, 0, 0, 0x0b]),
    };
}

entries! {
    /// Imports of the given kinds, in order; nothing else.
    fn c18_imports(a, b_, c, d) {
        let mut b = Buf::module();
        types(&mut b);
        let s = b.open(Some(2));
        let ks = [a, b_, c, d];
        let n = ks.iter().filter(|k| **k < 4).count();
        b.u(n as u8);
        for i in 0..n { import(&mut b, ks[i] as usize); }
        b.close(s);
        verdict(b.s());
    }
    /// `k` imports of any kind, then `e` exports of any kind and index, with own functions, globals
    /// and possibly a table and memory.
    fn c18_spaces(k, e, own_tm) {
        let mut b = Buf::module();
        types(&mut b);
        let s = b.open(Some(2));
        b.u(k as u8);
        for _ in 0..k {
            let c = choose(4);
            b.put(&[0, 0]).u(c as u8);
            match c {
                0 => b.u(below(3)),
                1 => b.put(&[0x70, 1, 3, 9]),
                2 => b.put(&[0, 7]),
                _ => b.u(vt()).u(below(2)),
            };
        }
        b.close(s);
        let s = b.open(Some(3));
        b.u(2).u(below(3)).u(below(3));
        b.close(s);
        if own_tm & 1 == 1 { b.sec(4, &[1, 0x70, 0, 5]); }
        if own_tm & 2 == 2 { b.sec(5, &[1, 1, 2, 6]); }
        let s = b.open(Some(6));
        b.u(2);
        own(&mut b, 0x7f);
        own(&mut b, 0x7c);
        b.close(s);
        let s = b.open(Some(7));
        b.u(e as u8);
        for i in 0..e { b.u(1).u(b'a' + i as u8).u(below(4)).u(below(6)); }
        b.close(s);
        b.sec(10, &[2, 3, 0, 0, 0x0b, 3, 0, 0, 0x0b]);
        verdict(b.s());
    }
    /// Several imports of one kind and exports of that kind only.
    fn c18_same(kind, ni, no, e) {
        let mut b = Buf::module();
        types(&mut b);
        let s = b.open(Some(2));
        b.u(ni as u8 * 2);
        for _ in 0..ni {
            // something of another kind in between
            if kind == 0 { b.put(&[0, 0, 3]).u(vt()).u(0); } else { b.put(&[0, 0, 0]).u(below(3)); }
            import(&mut b, kind as usize);
        }
        b.close(s);
        if kind == 0 {
            let s = b.open(Some(3));
            b.u(no as u8);
            for _ in 0..no { b.u(below(3)); }
            b.close(s);
        }
        if kind == 1 && no > 0 { b.sec(4, &[1, 0x70, 1, 1, 2]); }
        if kind == 2 && no > 0 { b.sec(5, &[1, 1, 1, 2]); }
        if kind == 3 {
            let s = b.open(Some(6));
            b.u(no as u8);
            for i in 0..no { own(&mut b, if i & 1 == 0 { 0x7e } else { 0x7c }); }
            b.close(s);
        }
        let s = b.open(Some(7));
        b.u(e as u8);
        for i in 0..e { b.u(1).u(b'a' + i as u8).u(kind as u8).u(below((ni + no) as u8 + 1)); }
        b.close(s);
        if kind == 0 {
            let s = b.open(Some(10));
            b.u(no as u8);
            for _ in 0..no { b.put(&[3, 0, 0, 0x0b]); }
            b.close(s);
        }
        verdict(b.s());
    }
    /// Limits of exported tables and memories, in full width. `kind` 1 or 2, `own` or imported.
    fn c18_limits(kind, own, w1, w2) {
        let mut b = Buf::module();
        let s = if own == 1 { b.open(Some(kind as u8 + 3)) } else { b.open(Some(2)) };
        b.u(1);
        if own == 0 { b.put(&[0, 0]).u(kind as u8); }
        if kind == 1 { b.u(0x70); }
        b.u((w2 > 0) as u8).num(w1 as usize);
        if w2 > 0 { b.num(w2 as usize); }
        b.close(s);
        b.sec(7, &[1, 0, kind as u8, 0]);
        verdict(b.s());
    }
    /// Uses in a body: calls and globals see imports first.
    fn c18_uses(ni, ng) {
        let mut b = Buf::module();
        types(&mut b);
        let s = b.open(Some(2));
        b.u((ni + ng) as u8);
        for i in 0..ni + ng {
            if i < ng { b.put(&[0, 0, 3]).u(vt()).u(below(2)); } else { b.put(&[0, 0, 0]).u(below(3)); }
        }
        b.close(s);
        b.sec(3, &[2, 1, 2]);
        let s = b.open(Some(6));
        b.u(1);
        own(&mut b, 0x7c);
        b.close(s);
        let s = b.open(Some(10));
        b.u(2);
        let f = b.open(None);
        let o = byte();
        assume((o == 0x10) | (o == 0x23));
        b.u(0).u(o).u(below((ni + ng) as u8 + 3)).u(0x0b);
        b.close(f);
        let f = b.open(None);
        let o = byte();
        assume((o == 0x10) | (o == 0x23));
        b.u(0).u(o).u(below((ni + ng) as u8 + 3)).sym(1).u(0x0b);
        b.close(f);
        b.close(s);
        verdict(b.s());
    }
    /// Wide function types reported in full.
    fn c18_func(np, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(1).ftype(np as usize, nr as usize);
        b.close(s);
        b.sec(2, &[1, 0, 0, 0, 0]);
        b.sec(3, &[1, 0]);
        b.sec(7, &[2, 0, 0, 0, 1, b'x', 0, 1]);
        b.sec(10, &[1, 3, 0, 0, 0x0b]);
        verdict(b.s());
    }
    /// `n` imported and `n` own globals; the type reported for an exported one.
    fn c18_big(n) {
        let mut i = Long::new();
        i.leb(n);
        for k in 0..n { i.u(0).u(0).u(3).u(if k % 3 == 0 { 0x7f } else { 0x7e }).u(0); }
        let mut g = Long::new();
        g.leb(n);
        for k in 0..n { g.u(if k % 3 == 0 { 0x7f } else { 0x7e }).u(1).u(if k % 3 == 0 { 0x41 } else { 0x42 }).u(0).u(0x0b); }
        let mut e = Long::new();
        e.put(&[1, 0, 3]);
        let x = e.num();
        assume((x < 3) | (x + 3 > n) & (x < n + 3) | (x + 3 > 2 * n) | (x == 256) | (x == 65536));
        let mut b = Long::module();
        b.sec(2, &i).sec(6, &g).sec(7, &e);
        let m = match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => m,
            Err(_) => return fail(60),
        };
        match m.validate() {
            Ok(r) => {
                reach(1);
                check(61, x < 2 * n);
                check(62, (r.imports.len() as u64 == n) & (r.exports.len() == 1));
                match &r.exports[0] {
                    External::Global(t) => {
                        let k = if x < n { x } else { x - n };
                        check(63, (t.mt == ty::Mut::Var) == (x >= n));
                        check(64, (t.val == ty::Val::I32) == (k % 3 == 0));
                    }
                    _ => fail(65),
                }
            }
            Err(_) => {
                reach(2);
                check(66, x >= 2 * n);
            }
        }
        obs(x);
    }
    /// `n` imported functions with as many globals in between and `n` own functions, with types of as many
    /// parameters as the position has modulo five; the type reported for an exported one and for the last imports.
    fn c18_big_func(n) {
        let mut t = Long::new();
        t.u(5);
        for k in 0..5 {
            t.u(0x60).u(k);
            for _ in 0..k { t.u(0x7e); }
            t.u(0);
        }
        let mut i = Long::new();
        i.leb(2 * n);
        for k in 0..n { i.put(&[0, 0, 0]).u((k % 5) as u8).put(&[0, 0, 3, 0x7f, 0]); }
        let mut f = Long::new();
        f.leb(n);
        let mut code = Long::new();
        code.leb(n);
        for k in 0..n {
            f.u((k % 5) as u8);
            code.put(&[2, 0, 0x0b]);
        }
        let mut e = Long::new();
        e.put(&[1, 0, 0]);
        let x = e.num();
        assume((x < 6) | (x + 6 > n) & (x < n + 6) | (x + 6 > 2 * n) | (x == 256) | (x == 65536));
        let mut b = Long::module();
        b.sec(1, &t).sec(2, &i).sec(3, &f).sec(7, &e).sec(10, &code);
        let m = match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => m,
            Err(_) => return fail(70),
        };
        match m.validate() {
            Ok(r) => {
                reach(1);
                check(71, x < 2 * n);
                check(72, (r.imports.len() as u64 == 2 * n) & (r.exports.len() == 1));
                for k in 0..n as usize {
                    let ok = matches!(&r.imports[2 * k], External::Func(t) if t.params.len() == k % 5)
                        && matches!(&r.imports[2 * k + 1], External::Global(_));
                    check(73, ok);
                }
                match &r.exports[0] {
                    External::Func(t) => {
                        let k = if x < n { x } else { x - n };
                        check(74, t.params.len() as u64 == k % 5);
                    }
                    _ => fail(75),
                }
            }
            Err(_) => {
                reach(2);
                check(76, x >= 2 * n);
            }
        }
        obs(x);
    }
}
