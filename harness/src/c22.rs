//! Equality of decoded values.

use crate::flat;
use crate::rt::*;
use crate::tr::Tr;
use crate::whole::*;
use whasm::binary::{Byte, Error, WasmBinary, WasmBinaryParse};
use whasm::structure::{instr, instr::Instr, module, module::Module, ty};

/// Decodes `T` from two byte strings and compares equality with that of the flat descriptions.
fn pair<T: WasmBinaryParse + PartialEq>(a: &[u8], b: &[u8], f: fn(&mut Tr, &T)) {
    let x = Cur::new(a).parse::<T>();
    let x = match x {
        Ok(x) => x,
        Err(_) => return obs(1),
    };
    let y = match Cur::new(b).parse::<T>() {
        Ok(y) => y,
        Err(_) => return obs(2),
    };
    let (mut s, mut t) = (Tr::new(), Tr::new());
    f(&mut s, &x);
    f(&mut t, &y);
    let same = s.same(&t);
    let eq = x == y;
    check(1, eq == same);
    check(2, (x != y) == !same);
    check(3, (y == x) == same);
    if eq { reach(1); } else { reach(2); }
    obs(eq as u64);
}

/// Decodes `T` from two long byte strings and compares equality with what is expected.
fn equal<T: WasmBinaryParse + PartialEq>(a: &Long, b: &Long, same: bool) {
    let (x, y) = match (Cur::new(a.s()).parse::<T>(), Cur::new(b.s()).parse::<T>()) {
        (Ok(x), Ok(y)) => (x, y),
        _ => return fail(4),
    };
    let eq = x == y;
    check(5, eq == same);
    check(6, (x != y) == !same);
    check(7, (y == x) == same);
    if eq { reach(1); } else { reach(2); }
    obs(eq as u64);
}

/// Two strings of `n` symbolic bytes, then end markers. Floating-point constants compare as numbers and
/// are left to `c22_float`.
fn strings(n: u64) -> ([u8; 12], [u8; 12]) {
    let (mut a, mut b) = ([0x0b; 12], [0x0b; 12]);
    let n = n as usize;
    sym(&mut a[..n]);
    sym(&mut b[..n]);
    for i in 0..n {
        assume((a[i] != 0x43) & (a[i] != 0x44) & (b[i] != 0x43) & (b[i] != 0x44));
    }
    (a, b)
}

/// An entry of a kind with unconstrained numbers.
fn wide(k: u64) -> Buf {
    let mut b = Buf::new();
    let num = |b: &mut Buf| {
        b.num(5);
        assume(b.b[b.n - 1] < 0x10);
    };
    let limits = |b: &mut Buf| {
        b.u(below(2));
        num(b);
        num(b);
    };
    match k {
        0 | 2 => limits(&mut b),
        1 => { b.u(0x70); limits(&mut b); }
        3 => {
            let o = byte();
            assume((o >= 0x28) & (o <= 0x3e));
            b.u(o);
            num(&mut b);
            num(&mut b);
        }
        4 => {
            b.u(0x41).num(5);
            let y = b.b[b.n - 1] & 0x78;
            assume((y == 0) | (y == 0x78));
        }
        5 => {
            b.u(0x42).num(10);
            let y = b.b[b.n - 1];
            assume((y == 0) | (y == 0x7f));
        }
        6 => { b.u(0x11); num(&mut b); num(&mut b); }
        7 => {
            b.u(0x0e).u(below(3));
            for _ in 0..3 { num(&mut b); }
        }
        8 => {
            let o = byte();
            assume(((o >= 0x20) & (o <= 0x24)) | (o == 0x0c) | (o == 0x0d) | (o == 0x10) | (o == 0x3f) | (o == 0x40));
            b.u(o);
            num(&mut b);
        }
        9 => {
            b.u(0x60).u(below(5));
            for _ in 0..4 { b.u(vt()); }
            b.u(below(2)).u(vt());
        }
        10 => {
            b.u(2).sym(2).u(1).sym(1);
            for i in [1, 2, 4] { assume(b.b[i] < 0x80); }
            b.u(0);
            num(&mut b);
        }
        11 => {
            b.u(3).sym(3);
            for i in [1, 2, 3] { assume(b.b[i] < 0x80); }
            b.u(below(4));
            num(&mut b);
        }
        12 => {
            num(&mut b);
            b.put(&[0x41, 0, 0x0b]).u(below(3));
            num(&mut b);
            num(&mut b);
        }
        13 => {
            num(&mut b);
            b.put(&[0x41, 0, 0x0b]).u(below(5)).sym(4);
        }
        14 => num(&mut b),
        15 => {
            b.u(vt()).u(below(2)).u(0x23);
            num(&mut b);
            b.u(0x0b);
        }
        16 => {
            b.u(0x41).num(1).u(0x23);
            num(&mut b);
            b.u(0x0b);
        }
        // blocks, loops and conditionals around an index
        _ => {
            let o = byte();
            assume((o >= 0x02) & (o <= 0x04));
            b.u(o).u(bt()).u(0x20);
            num(&mut b);
            b.u(0x0b);
        }
    }
    b
}

fn error(k: usize, id: u8) -> Error {
    match k {
        0 => Error::UnexpectedEndOfFile,
        1 => Error::InvalidVariantId { id, ty: "a" },
        2 => Error::InvalidVariantId { id, ty: "b" },
        3 => Error::OutOfRangeSignedInteger,
        4 => Error::OutOfRangeUnsignedInteger,
        5 => Error::InvalidUtf8Encoding,
        6 => Error::UnexpectedOpcode { instr: "a" },
        7 => Error::UnexpectedOpcode { instr: "b" },
        8 => Error::InvalidPreambleMagic,
        9 => Error::InvalidPreambleVersion,
        10 => Error::UnexpectedSectionId { id: Byte(id) },
        11 => Error::InvalidSectionId { id: Byte(id) },
        12 => Error::SectionSizeMissmatch { id: Byte(id) },
        13 => Error::FunctionSizeMissmatch,
        _ => Error::SizeMissmatch,
    }
}

entries! {
    /// Two instructions of any `n` bytes.
    fn c22_instr(n) {
        let (a, b) = strings(n);
        pair::<Instr>(&a, &b, flat::instr);
    }
    /// Two instructions of the same opcode, not a structured one, with any `n` bytes behind it.
    fn c22_same(n) {
        let (a, mut b) = strings(n + 1);
        assume((a[0] < 0x02) | (a[0] > 0x04));
        b[0] = a[0];
        pair::<Instr>(&a, &b, flat::instr);
    }
    /// Two expressions of any `n` bytes.
    fn c22_expr(n) {
        let (a, b) = strings(n);
        pair::<instr::Expr>(&a, &b, |t, e| flat::expr(t, &e.0));
    }
    /// Floating-point constants: equal exactly if the numbers are.
    fn c22_float(w) {
        let (mut a, mut b) = ([0; 8], [0; 8]);
        sym(&mut a[..w as usize]);
        sym(&mut b[..w as usize]);
        let (x, y, num) = if w == 4 {
            let (p, q) = (u32::from_le_bytes([a[0], a[1], a[2], a[3]]), u32::from_le_bytes([b[0], b[1], b[2], b[3]]));
            let nan = |x: u32| x & 0x7fffffff > 0x7f800000;
            let zero = |x: u32| x & 0x7fffffff == 0;
            (Instr::ConstF32(f32::from_bits(p)), Instr::ConstF32(f32::from_bits(q)), !nan(p) & !nan(q) & ((p == q) | (zero(p) & zero(q))))
        } else {
            let (p, q) = (u64::from_le_bytes(a), u64::from_le_bytes(b));
            let nan = |x: u64| x & (!0 >> 1) > 0x7ff << 52;
            let zero = |x: u64| x & (!0 >> 1) == 0;
            (Instr::ConstF64(f64::from_bits(p)), Instr::ConstF64(f64::from_bits(q)), !nan(p) & !nan(q) & ((p == q) | (zero(p) & zero(q))))
        };
        let eq = x == y;
        check(1, eq == num);
        if eq { reach(1); } else { reach(2); }
        obs(eq as u64);
    }
    /// Two entries of `n` bytes of one kind.
    fn c22_entry(k, n) {
        let (a, b) = strings(n);
        match k {
            0 => pair::<ty::Limits>(&a, &b, flat::lim),
            1 => pair::<ty::Val>(&a, &b, |t, v| t.p(flat::val(v))),
            2 => pair::<ty::RetVal>(&a, &b, flat::ret),
            3 => pair::<ty::Func>(&a, &b, flat::func_ty),
            4 => pair::<ty::Table>(&a, &b, flat::table),
            5 => pair::<ty::Mem>(&a, &b, |t, m| flat::lim(t, &m.lim)),
            6 => pair::<ty::Global>(&a, &b, flat::global),
            7 => pair::<module::Import>(&a, &b, flat::import),
            8 => pair::<module::Export>(&a, &b, flat::export),
            9 => pair::<module::Elem>(&a, &b, flat::elem),
            10 => pair::<module::Data>(&a, &b, flat::data),
            11 => pair::<module::Start>(&a, &b, |t, s| t.p(s.func.0 as u64)),
            _ => pair::<module::Global>(&a, &b, |t, g| {
                flat::global(t, &g.ty);
                flat::expr(t, &g.init.0);
            }),
        }
    }
    /// Two entries with every number in full width.
    fn c22_wide(k) {
        let (a, b) = (wide(k), wide(k));
        let (a, b) = (a.s(), b.s());
        match k {
            0 => pair::<ty::Limits>(a, b, flat::lim),
            1 => pair::<ty::Table>(a, b, flat::table),
            2 => pair::<ty::Mem>(a, b, |t, m| flat::lim(t, &m.lim)),
            9 => pair::<ty::Func>(a, b, flat::func_ty),
            10 => pair::<module::Import>(a, b, flat::import),
            11 => pair::<module::Export>(a, b, flat::export),
            12 => pair::<module::Elem>(a, b, flat::elem),
            13 => pair::<module::Data>(a, b, flat::data),
            14 => pair::<module::Start>(a, b, |t, s| t.p(s.func.0 as u64)),
            15 => pair::<module::Global>(a, b, |t, g| {
                flat::global(t, &g.ty);
                flat::expr(t, &g.init.0);
            }),
            16 => pair::<instr::ConstExpr>(a, b, |t, e| flat::expr(t, &e.0)),
            _ => pair::<Instr>(a, b, flat::instr),
        }
    }
    /// Two whole modules that differ in at most one byte of the `part`th section.
    fn c22_module(part) {
        let mut cut = [0; 13];
        let mut a = full(&mut cut);
        let mut b = full(&mut cut);
        let p = part as usize;
        let at = cut[p] + choose(cut[p + 1] - cut[p]);
        // the constant at the end of the last body must not become a NaN
        assume((at < cut[11] - 8) | (at >= cut[11] - 4));
        a.b[at] = byte();
        b.b[at] = byte();
        assume((a.b[at] != 0x43) & (a.b[at] != 0x44) & (b.b[at] != 0x43) & (b.b[at] != 0x44));
        pair::<Module>(a.s(), b.s(), flat::module);
    }
    /// Two errors.
    fn c22_error() {
        let (i, j) = (choose(15), choose(15));
        let (x, y) = (byte(), byte());
        let with = matches!(i, 1 | 2 | 10 | 11 | 12);
        let same = (i == j) & (!with | (x == y));
        let eq = error(i, x) == error(j, y);
        check(1, eq == same);
        if eq { reach(1); } else { reach(2); }
        obs(eq as u64);
    }
    /// Two values with `n` parts that differ, if at all, in one of them at the start, the middle or the end, or in
    /// the number of parts.
    fn c22_big(n, what) {
        let at = [0, 1, n / 2, n - 2, n - 1][choose(5)];
        let (x, y) = (byte(), byte());
        let more = choose(2) as u64;
        let (lo, hi) = match what { 0 => (0, 1), 1 => (0x7c, 0x7f), 2 => (0, 0x7f), 3 => (0, 0xff), _ => (b'a', 0x7f) };
        assume((x >= lo) & (x <= hi) & (y >= lo) & (y <= hi));
        let make = |v: u8, n: u64| {
            let mut b = Long::new();
            if what == 1 { b.u(0x60); }
            if what == 2 { b.u(0x0e); }
            if what == 3 { b.put(&[0, 0x41, 0, 0x0b]); }
            if what != 0 { b.leb(n); }
            for i in 0..n { b.u(if i == at { v } else { lo }); }
            match what { 0 => b.u(0x0b), 1 => b.u(0), 2 => b.u(0), _ => b.u(0) };
            b
        };
        let (a, b) = (make(x, n), make(y, n + more));
        let same = (x == y) & (more == 0);
        match what {
            0 => equal::<instr::Expr>(&a, &b, same),
            1 => equal::<ty::Func>(&a, &b, same),
            2 => equal::<Instr>(&a, &b, same),
            3 => equal::<module::Data>(&a, &b, same),
            _ => {
                let f = |l: &mut Long| { let mut m = Long::module(); let mut s = Long::new(); s.u(1).put(l.s()).put(&[0]); m.sec(7, &s); m };
                let (mut a, mut b) = (a, b);
                equal::<Module>(&f(&mut a), &f(&mut b), same)
            }
        }
    }
}
