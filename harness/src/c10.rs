//! Entries of the sections.

use crate::rt::*;
use whasm::structure::module::{desc, Module};
use whasm::structure::ty;
use whasm::binary::WasmBinary;
use crate::whole::*;

/// What must be there before section `id` can hold entries.
fn before(b: &mut Buf, id: u64, k: u64) {
    if id > 1 {
        b.sec(1, &[1, 0x60, 1, 0x7f, 0]);
    }
    if id == 10 {
        let s = b.open(Some(3));
        b.u(k as u8);
        for _ in 0..k { b.u(0); }
        b.close(s);
    }
}
fn after(b: &mut Buf, id: u64, n: u8) {
    if id == 3 {
        let s = b.open(Some(10));
        b.u(n);
        for _ in 0..n { b.put(&[2, 0, 0x0b]); }
        b.close(s);
    }
}

entries! {
    /// Section `id` with `k` entries in `n` symbolic bytes.
    fn c10_free(id, k, n) {
        let mut b = Buf::module();
        before(&mut b, id, k);
        b.u(id as u8);
        if id == 8 {
            b.u(n as u8);
        } else {
            b.u(n as u8 + 1).u(k as u8);
        }
        b.sym(n as usize);
        after(&mut b, id, k as u8);
        decode_bounded(b.s());
    }
    /// Function types with `np` parameters and `nr` results, any bytes in type positions.
    fn c10_types(np, nr) {
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.u(2);
        for _ in 0..2 {
            b.sym(1).u(np as u8).sym(np as usize).u(nr as u8).sym(nr as usize);
        }
        b.close(s);
        decode(b.s());
    }
    /// Imports: short names, any kind, `n` bytes of description each.
    fn c10_imports(k, n) {
        let mut b = Buf::module();
        before(&mut b, 2, k);
        let s = b.open(Some(2));
        b.u(k as u8);
        for i in 0..k {
            b.u(1).sym(1).u(2).sym(2);
            let at = b.n - 4;
            assume((b.b[at] < 0x80) & (b.b[at + 2] < 0x80) & (b.b[at + 3] < 0x80));
            b.sym(1 + n as usize);
        }
        b.close(s);
        decode(b.s());
    }
    /// Three imports or exports with kinds and immediates chosen symbolically.
    fn c10_import_kinds(a, b_, c) {
        let mut b = Buf::module();
        let s = b.open(Some(2));
        b.u(3);
        for k in [a, b_, c] {
            b.u(1).u(b'm').u(0).u(k as u8);
            match k {
                0 => b.num(2),
                1 => b.sym(1).sym(1).num(1).num(2),
                2 => b.sym(1).num(2).num(1),
                _ => b.sym(2),
            };
        }
        b.close(s);
        decode(b.s());
    }
    /// Limits with wide numbers; `id` 4 or 5.
    fn c10_limits(id, w1, w2) {
        let mut b = Buf::module();
        let s = b.open(Some(id as u8));
        b.u(1);
        if id == 4 { b.sym(1); }
        b.sym(1).num(w1 as usize);
        if w2 > 0 { b.num(w2 as usize); }
        b.close(s);
        decode(b.s());
    }
    /// Two globals with symbolic type, mutability and initialiser.
    fn c10_globals(n) {
        let mut b = Buf::module();
        let s = b.open(Some(6));
        b.u(2);
        for _ in 0..2 {
            b.sym(2).sym(n as usize).u(0x0b);
        }
        b.close(s);
        decode(b.s());
    }
    /// A long initialiser constant.
    fn c10_global_const(op, n) {
        let mut b = Buf::module();
        let s = b.open(Some(6));
        b.u(1).sym(2).u(op as u8);
        if op == 0x43 || op == 0x44 { b.sym(n as usize); } else { b.num(n as usize); }
        b.u(0x0b);
        b.close(s);
        decode(b.s());
    }
    /// `k` exports with symbolic names, kinds and indices of `w` bytes.
    fn c10_exports(k, w) {
        let mut b = Buf::module();
        let s = b.open(Some(7));
        b.u(k as u8);
        for i in 0..k {
            b.u(i as u8).sym(i as usize);
            for j in 0..i as usize { assume(b.b[b.n - 1 - j] < 0x80); }
            b.sym(1).num(w as usize);
        }
        b.close(s);
        decode(b.s());
    }
    fn c10_start(w) {
        let mut b = Buf::module();
        b.u(8).u(w as u8).num(w as usize);
        decode(b.s());
    }
    /// Function section with indices of `w` bytes.
    fn c10_funcs(k, w) {
        let mut b = Buf::module();
        let s = b.open(Some(3));
        b.u(k as u8);
        for _ in 0..k { b.num(w as usize); }
        b.close(s);
        after(&mut b, 3, k as u8);
        decode(b.s());
    }
    /// Two element segments with `k` functions each, indices of `w` bytes.
    fn c10_elems(k, w) {
        let mut b = Buf::module();
        let s = b.open(Some(9));
        b.u(2);
        for _ in 0..2 {
            b.num(1).u(0x41).num(1).u(0x0b).u(k as u8);
            for _ in 0..k { b.num(w as usize); }
        }
        b.close(s);
        decode(b.s());
    }
    /// Two data segments with `k` bytes each.
    fn c10_datas(k) {
        let mut b = Buf::module();
        let s = b.open(Some(11));
        b.u(2);
        for _ in 0..2 {
            b.num(2).u(0x23).num(1).u(0x0b).leb(k as u32).sym(k as usize);
        }
        b.close(s);
        decode(b.s());
    }
    /// A body with `k` runs of locals and `n` symbolic bytes of code.
    fn c10_body(k, n) {
        let mut b = Buf::module();
        before(&mut b, 10, 1);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.u(k as u8);
        for _ in 0..k { b.u(below(4)).sym(1); }
        b.sym(n as usize).u(0x0b);
        b.close(f);
        b.close(s);
        decode(b.s());
    }
    /// Two bodies with their own locals.
    fn c10_bodies(n) {
        let mut b = Buf::module();
        b.sec(3, &[2, 0, 1]);
        let s = b.open(Some(10));
        b.u(2);
        for i in 0..2 {
            let f = b.open(None);
            b.u(2 - i).u(below(3)).u(vt());
            if i == 0 { b.u(below(3)).u(vt()); }
            b.sym(n as usize).u(0x0b);
            b.close(f);
        }
        b.close(s);
        decode(b.s());
    }
    /// All locals of one long run.
    fn c10_locals(k) {
        let mut b = Buf::module();
        before(&mut b, 10, 1);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.u(2).leb(k as u32).u(vt()).u(below(3)).u(vt()).u(0x0b);
        b.close(f);
        b.close(s);
        decode(b.s());
    }
    /// `n` entries in every section that can have them, each section's last with symbolic numbers.
    fn c10_big(n) {
        let mut b = Long::module();
        let mut s = [(); 7].iter().map(|_| { let mut l = Long::new(); l.leb(n); l }).collect::<Vec<_>>();
        let mut want = [0; 7];
        for i in 1..=n {
            let last = i == n;
            let k = i - 1;
            let mut put = |j: usize, lead: &[u8], tail: &[u8]| {
                s[j].put(lead);
                if last { want[j] = s[j].num(); } else { s[j].leb(k); }
                s[j].put(tail);
            };
            put(0, &[1, b'a', 1, b'b', 0], &[]);
            put(1, &[], &[]);
            put(2, &[0x70, 0], &[]);
            put(3, &[0], &[]);
            put(4, &[0x7f, 0, 0x23], &[0x0b]);
            put(5, &[1, b'e', 3], &[]);
            put(6, &[0, 0x41, 0, 0x0b, 1], &[]);
        }
        let mut d = Long::new();
        d.leb(n);
        let y = byte();
        for i in 1..=n { d.put(&[0, 0x41, 0, 0x0b, 2, 7]).u(if i == n { y } else { i as u8 }); }
        let mut code = Long::new();
        code.leb(n);
        for _ in 0..n { code.put(&[2, 0, 0x0b]); }
        let mut t = Long::new();
        t.leb(n);
        for _ in 0..n { t.put(&[0x60, 1, 0x7e, 0]); }
        b.sec(1, &t).sec(2, &s[0]).sec(3, &s[1]).sec(4, &s[2]).sec(5, &s[3]).sec(6, &s[4]).sec(7, &s[5]).sec(9, &s[6]).sec(10, &code).sec(11, &d);
        let m = match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => m,
            Err(_) => return fail(40),
        };
        reach(1);
        let l = [m.types.len(), m.imports.len(), m.funcs.len(), m.tables.len(), m.mems.len(), m.globals.len(), m.exports.len(), m.elem.len(), m.data.len()];
        let mut ok = true;
        for x in l { ok &= x as u64 == n; }
        check(41, ok);
        let val = |i: usize, j: usize| if i as u64 + 1 == n { want[j] } else { i as u64 };
        for i in 0..n as usize {
            let mut ok = true;
            ok &= matches!(&m.imports[i].desc, desc::Import::Func(x) if x.0 as u64 == val(i, 0));
            ok &= m.funcs[i].ty.0 as u64 == val(i, 1);
            ok &= m.tables[i].ty.lim.min as u64 == val(i, 2);
            ok &= m.mems[i].ty.lim.min as u64 == val(i, 3);
            ok &= matches!(&m.globals[i].init.0[..], [whasm::structure::instr::Instr::GlobalGet(x)] if x.0 as u64 == val(i, 4));
            ok &= matches!(&m.exports[i].desc, desc::Export::Global(x) if x.0 as u64 == val(i, 5));
            ok &= m.elem[i].init.len() == 1 && m.elem[i].init[0].0 as u64 == val(i, 6);
            ok &= m.data[i].init.len() == 2 && m.data[i].init[1] == if i as u64 + 1 == n { y } else { (i + 1) as u8 };
            check(42, ok);
        }
        obs(want[0]);
    }
    /// One entry with `n` parts in the type, element, code and data sections, the last part symbolic.
    fn c10_long(n) {
        let (t, l) = (byte(), byte());
        assume((t >= 0x7c) & (t <= 0x7f) & (l >= 0x7c) & (l <= 0x7f));
        let mut types = Long::new();
        types.u(1).u(0x60).leb(n);
        for i in 1..n { types.u(0x7c + (i % 4) as u8); }
        types.u(t).u(0);
        let mut elem = Long::new();
        elem.put(&[1, 0, 0x41, 0, 0x0b]).leb(n);
        for i in 1..n { elem.leb(i); }
        let e = elem.num();
        let mut body = Long::new();
        body.leb(n);
        for i in 1..n { body.u(1).u(0x7c + (i % 4) as u8); }
        body.u(1).u(l).u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut data = Long::new();
        data.put(&[1, 0, 0x41, 0, 0x0b]).leb(n);
        for i in 1..n { data.u(i as u8); }
        let d = byte();
        data.u(d);
        let mut b = Long::module();
        b.sec(1, &types).put(&[3, 2, 1, 0]).sec(9, &elem).sec(10, &code).sec(11, &data);
        let m = match Cur::new(b.s()).parse::<Module>() {
            Ok(m) => m,
            Err(_) => return fail(50),
        };
        reach(1);
        let all = [m.types.len(), m.funcs.len(), m.elem.len(), m.data.len()] == [1; 4];
        check(51, all);
        let (p, i, k, x) = (&m.types[0].params, &m.elem[0].init, &m.funcs[0].locals, &m.data[0].init);
        check(52, [p.len(), i.len(), k.len(), x.len()] == [n as usize; 4]);
        let code = |v: &ty::Val| match v { ty::Val::I32 => 0x7f, ty::Val::I64 => 0x7e, ty::Val::F32 => 0x7d, ty::Val::F64 => 0x7c };
        for j in 0..n as usize - 1 {
            let w = 0x7c + ((j + 1) % 4) as u8;
            let ok = (code(&p[j]) == w) & (code(&k[j]) == w) & (i[j].0 as usize == j + 1) & (x[j] == (j + 1) as u8);
            check(53, ok);
        }
        let j = n as usize - 1;
        check(54, code(&p[j]) == t);
        check(55, code(&k[j]) == l);
        check(56, i[j].0 as u64 == e);
        check(57, x[j] == d);
        obs(e);
    }
}
