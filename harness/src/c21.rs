//! What a decoding error says.

use crate::rt::*;
use crate::whole::*;
use whasm::binary::{Byte, Error, Sized, WasmBinary, WasmBinaryParse};
use whasm::structure::{instr, instr::Instr, module, module::Module, ty};

/// Number of an error's kind, for comparison with the native run.
fn kind(e: &Error) -> u64 {
    match e {
        Error::UnexpectedEndOfFile => 1,
        Error::InvalidVariantId { id, .. } => 0x100 + *id as u64,
        Error::OutOfRangeSignedInteger => 2,
        Error::OutOfRangeUnsignedInteger => 3,
        Error::InvalidUtf8Encoding => 4,
        Error::UnexpectedOpcode { .. } => 5,
        Error::InvalidPreambleMagic => 6,
        Error::InvalidPreambleVersion => 7,
        Error::UnexpectedSectionId { id } => 0x200 + id.0 as u64,
        Error::InvalidSectionId { id } => 0x300 + id.0 as u64,
        Error::SectionSizeMissmatch { id } => 0x400 + id.0 as u64,
        Error::FunctionSizeMissmatch => 8,
        Error::SizeMissmatch => 9,
        #[allow(unreachable_patterns)]
        _ => 10,
    }
}

fn err<T: WasmBinaryParse>(b: &[u8]) -> Option<Error> {
    match Cur::new(b).parse::<T>() {
        Ok(_) => {
            obs(0);
            None
        }
        Err(e) => {
            obs(kind(&e));
            Some(e)
        }
    }
}

fn variant(e: &Option<Error>, want: u8, name: &str) -> bool {
    match e {
        Some(Error::InvalidVariantId { id, ty }) => (*id == want) & (*ty == name),
        _ => false,
    }
}

fn size(e: &Option<Error>) -> bool {
    matches!(e, Some(Error::SizeMissmatch) | Some(Error::SectionSizeMissmatch { .. }) | Some(Error::FunctionSizeMissmatch))
}

fn eof(e: &Option<Error>) -> bool {
    matches!(e, Some(Error::UnexpectedEndOfFile))
}

/// A tag byte followed by bytes that suit every valid tag: an invalid one is reported.
fn tag<T: WasmBinaryParse>(lead: &[u8], tail: &[u8], name: &str, valid: fn(u8) -> bool) {
    let mut b = Buf::new();
    let x = byte();
    b.put(lead).u(x).put(tail);
    let e = err::<T>(b.s());
    if valid(x) {
        reach(1);
        check(1, e.is_none());
    } else {
        reach(2);
        check(2, variant(&e, x, name));
    }
}

fn is_val(x: u8) -> bool {
    (x >= 0x7c) & (x <= 0x7f)
}
fn is_bit(x: u8) -> bool {
    x < 2
}
fn is_kind(x: u8) -> bool {
    x < 4
}
fn is_plain(x: u8) -> bool {
    crate::spec::CLASS[x as usize] != crate::spec::BAD
}

/// The text of an error; for a symbolic number in it, the place where it must stand is `?`.
fn text(e: &Error) -> String {
    let s = format!("{}", e);
    for c in s.bytes() {
        obs(c as u64);
    }
    s
}

fn has(s: &[u8], w: &[u8]) -> bool {
    let mut any = false;
    let mut i = 0;
    while i + w.len() <= s.len() {
        let mut ok = true;
        for k in 0..w.len() {
            ok &= s[i + k] == w[k];
        }
        any |= ok;
        i += 1;
    }
    any
}

entries! {
    /// The first `n` bytes of a module.
    fn c21_preamble(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        let p = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
        let e = err::<Module>(b.s());
        if n < 4 {
            check(1, eof(&e));
            return;
        }
        if b.b[..4] != p[..4] {
            reach(1);
            check(2, matches!(e, Some(Error::InvalidPreambleMagic)));
        } else if n < 8 {
            check(3, eof(&e));
        } else if b.b[4..8] != p[4..] {
            reach(2);
            check(4, matches!(e, Some(Error::InvalidPreambleVersion)));
        } else {
            reach(3);
            check(5, e.is_none() | (n > 8));
        }
    }
    /// A section of any id and otherwise sound content after the first `k` sections of a populated module.
    fn c21_section(k, n) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let mut b = Buf::new();
        b.put(&f.b[..cut[k as usize + 1]]);
        let x = byte();
        b.u(x).u(1).u(0).sym(n as usize);
        let e = err::<Module>(b.s());
        if x > 11 {
            reach(1);
            check(1, matches!(&e, Some(Error::InvalidSectionId { id }) if id.0 == x));
        } else if (x != 0) & (x as u64 <= k) {
            reach(2);
            check(2, matches!(&e, Some(Error::UnexpectedSectionId { id }) if id.0 == x));
        } else {
            reach(3);
            // what follows can be the id of another section
            check(3, (n > 0) | !matches!(&e, Some(Error::UnexpectedSectionId { .. }) | Some(Error::InvalidSectionId { .. })));
        }
    }
    /// A tag byte of each kind, stand-alone and in a module.
    fn c21_tag(k) {
        match k {
            0 => tag::<ty::Val>(&[], &[], "ty::Val", is_val),
            1 => tag::<ty::Elem>(&[], &[], "ty::Elem", |x| x == 0x70),
            2 => tag::<ty::Limits>(&[], &[1, 1], "ty::Limits", is_bit),
            3 => tag::<ty::Mut>(&[], &[], "ty::Mut", is_bit),
            4 => tag::<ty::Func>(&[], &[0, 0], "ty::Func", |x| x == 0x60),
            5 => tag::<ty::RetVal>(&[], &[], "ty::Val", |x| is_val(x) | (x == 0x40)),
            6 => tag::<ty::Func>(&[0x60, 2, 0x7f], &[0], "ty::Val", is_val),
            7 => tag::<ty::Func>(&[0x60, 0, 1], &[], "ty::Val", is_val),
            8 => tag::<ty::Table>(&[], &[0, 0], "ty::Elem", |x| x == 0x70),
            9 => tag::<ty::Table>(&[0x70], &[1, 1], "ty::Limits", is_bit),
            10 => tag::<ty::Mem>(&[], &[1, 1], "ty::Limits", is_bit),
            11 => tag::<ty::Global>(&[], &[0], "ty::Val", is_val),
            12 => tag::<ty::Global>(&[0x7f], &[], "ty::Mut", is_bit),
            // a tail that is a type index, a table type, a memory type or a global type
            13 => {
                let x = byte();
                let mut b = Buf::new();
                b.u(x).put(&[0x70, 0, 0]);
                let e = err::<module::desc::Import>(b.s());
                if is_kind(x) {
                    reach(1);
                    check(1, !variant(&e, x, "module::desc::Import"));
                } else {
                    reach(2);
                    check(2, variant(&e, x, "module::desc::Import"));
                }
            }
            14 => tag::<module::desc::Export>(&[], &[0], "module::desc::Export", is_kind),
            15 => tag::<module::Export>(&[1, b'a'], &[0], "module::desc::Export", is_kind),
            16 => {
                let x = byte();
                let mut b = Buf::new();
                b.put(&[1, b'a', 0]).u(x);
                let e = err::<module::Import>(b.s());
                if is_kind(x) {
                    reach(1);
                    check(1, eof(&e));
                } else {
                    reach(2);
                    check(2, variant(&e, x, "module::desc::Import"));
                }
            }
            17 => tag::<instr::Expr>(&[0x02], &[0x0b, 0x0b], "ty::Val", |x| is_val(x) | (x == 0x40)),
            18 => tag::<instr::Expr>(&[0x04], &[0x05, 0x0b, 0x0b], "ty::Val", |x| is_val(x) | (x == 0x40)),
            _ => tag::<Sized<module::Func>>(&[4, 1, 1], &[0x0b], "ty::Val", is_val),
        }
    }
    /// An opcode after `n` others.
    fn c21_opcode(n, inside) {
        let mut b = Buf::new();
        for i in 0..n {
            b.u([0x01, 0x41, 0x1a, 0x6a][i as usize % 4]);
            if i % 4 == 1 { b.u(0); }
        }
        if inside != 0 { b.u(0x02).u(0x40); }
        let x = byte();
        b.u(x);
        let e = if n == 0 && inside == 0 { err::<Instr>(b.s()) } else { err::<instr::Expr>(b.s()) };
        if !is_plain(x) {
            reach(1);
            check(1, variant(&e, x, "instr::Instr"));
        } else if (x == 0x05) & ((n != 0) | (inside != 0)) {
            reach(2);
            check(2, matches!(e, Some(Error::UnexpectedOpcode { .. })));
        } else {
            reach(3);
            check(3, e.is_none() | eof(&e));
        }
    }
    /// Else markers: in a conditional, repeated, outside of it.
    fn c21_else(k, n) {
        let mut b = Buf::new();
        b.u(if k == 0 { 0x02 } else if k == 1 { 0x03 } else { 0x04 }).u(0x40);
        let mut count = 0;
        for _ in 0..n {
            let x = byte();
            assume((x == 0x05) | (x == 0x01));
            if x == 0x05 { count += 1; }
            b.u(x);
        }
        b.u(0x0b).u(0x0b);
        let e = err::<instr::Expr>(b.s());
        if count > (k == 2) as u32 {
            reach(1);
            check(1, matches!(e, Some(Error::UnexpectedOpcode { .. })));
        } else {
            reach(2);
            check(2, e.is_none());
        }
    }
    /// A populated module cut short inside its `k`th section (of all, if 12).
    fn c21_cut(k) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let (lo, hi) = if k == 12 { (0, cut[12]) } else { (cut[k as usize], cut[k as usize + 1]) };
        let n = lo + choose(hi - lo);
        let e = err::<Module>(&f.b[..n]);
        let mut whole = false;
        for i in 1..13 {
            whole |= n == cut[i];
        }
        if whole {
            reach(1);
            // function declarations without bodies
            check(1, (n >= cut[4]) & (n < cut[11]) & eof(&e) | e.is_none());
        } else {
            reach(2);
            check(2, eof(&e));
        }
    }
    /// A section whose size is larger than its content, the input going on or not.
    fn c21_size(k, more) {
        let mut cut = [0; 13];
        let f = full(&mut cut);
        let k = k as usize;
        let mut b = Buf::new();
        b.put(&f.b[..cut[k]]);
        // id, size in one or two bytes, content
        let (head, len) = if k == 10 {
            (3, cut[k + 1] - cut[k] - 3)
        } else {
            (2, cut[k + 1] - cut[k] - 2)
        };
        let x = byte();
        assume((x > 0) & (x < 100));
        b.u(k as u8).u(0x80).u(0);
        let n = len + x as usize;
        b.b[b.n - 2] = 0x80 | n as u8;
        b.b[b.n - 1] = (n >> 7) as u8;
        b.put(&f.b[cut[k] + head..cut[k + 1]]);
        if more != 0 { b.put(&[0; 120]); }
        let e = err::<Module>(b.s());
        reach(1);
        check(1, size(&e));
    }
    /// A sized item whose size differs from what the content takes.
    fn c21_sized(n) {
        let mut b = Buf::new();
        let x = byte();
        assume(x < 0x80);
        b.u(x).put(&[0x85, 0x80, 0x00]).sym(n as usize);
        let e = err::<Sized<u32>>(b.s());
        if x == 3 {
            reach(1);
            check(1, e.is_none());
        } else if x > 3 {
            reach(2);
            check(2, size(&e));
        } else {
            reach(3);
            check(3, eof(&e) | size(&e));
        }
    }
    /// The body of a function with a size too large.
    fn c21_body(more) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]).sec(3, &[1, 0]);
        let s = b.open(Some(10));
        let x = byte();
        assume((x > 2) & (x < 100));
        b.u(1).u(x).u(0).u(0x0b);
        if more != 0 { b.put(&[0; 100]); }
        b.close(s);
        let e = err::<Module>(b.s());
        reach(1);
        check(1, size(&e));
    }
    /// A number out of range, or a name that is not UTF-8, in a place of a module.
    fn c21_content(k) {
        let mut b = Buf::module();
        let s;
        let mut name = false;
        match k {
            0 => { s = b.open(Some(3)); b.u(1); }
            1 => { s = b.open(Some(5)); b.u(1).u(0); }
            2 => { s = b.open(Some(5)); b.u(1).u(1).u(0); }
            3 => { s = b.open(Some(8)); }
            4 => { s = b.open(Some(1)); }
            5 => { s = b.open(Some(9)); b.u(1); }
            6 => { s = b.open(Some(2)); b.u(1); name = true; }
            7 => { s = b.open(Some(2)); b.u(1).u(0); name = true; }
            8 => { s = b.open(Some(7)); b.u(1); name = true; }
            _ => { s = b.open(Some(0)); name = true; }
        }
        if name {
            b.u(2).sym(2);
        } else {
            b.put(&[0xff, 0xff, 0xff, 0xff]).sym(1);
            assume(b.b[b.n - 1] < 0x80);
        }
        let (x, y) = (b.b[b.n - 2], b.b[b.n - 1]);
        b.close(s);
        let e = err::<Module>(b.s());
        if name {
            let ascii = (x < 0x80) & (y < 0x80);
            let pair = (x >= 0xc2) & (x <= 0xdf) & (y >= 0x80) & (y <= 0xbf);
            if !(ascii | pair) {
                reach(1);
                check(1, matches!(e, Some(Error::InvalidUtf8Encoding)));
            } else {
                reach(2);
                check(2, e.is_none() | eof(&e));
            }
        } else if y > 0x0f {
            reach(1);
            check(3, matches!(e, Some(Error::OutOfRangeUnsignedInteger)));
        } else {
            reach(2);
            check(4, e.is_none() | eof(&e));
        }
    }
    /// A tag byte or opcode inside a section of a module.
    fn c21_inner(k) {
        let (id, lead, tail, name): (u8, &[u8], &[u8], &str) = match k {
            0 => (1, &[1], &[0, 0], "ty::Func"),
            1 => (1, &[2, 0x60, 1], &[0, 0x60, 0, 0], "ty::Val"),
            2 => (1, &[1, 0x60, 0, 1], &[], "ty::Val"),
            3 => (2, &[1, 1, b'm', 1, b'f'], &[0x70, 0, 0], "module::desc::Import"),
            4 => (2, &[1, 0, 0, 1], &[0, 0], "ty::Elem"),
            5 => (2, &[1, 0, 0, 1, 0x70], &[1, 1], "ty::Limits"),
            6 => (2, &[1, 0, 0, 2], &[1, 1], "ty::Limits"),
            7 => (2, &[1, 0, 0, 3], &[0], "ty::Val"),
            8 => (2, &[1, 0, 0, 3, 0x7f], &[], "ty::Mut"),
            9 => (4, &[1], &[0, 0], "ty::Elem"),
            10 => (4, &[1, 0x70], &[1, 1], "ty::Limits"),
            11 => (5, &[1], &[1, 1], "ty::Limits"),
            12 => (6, &[1], &[0, 0x41, 0, 0x0b], "ty::Val"),
            13 => (6, &[1, 0x7f], &[0x41, 0, 0x0b], "ty::Mut"),
            14 => (6, &[1, 0x7f, 0], &[0, 0, 0, 0, 0, 0, 0, 0, 0x0b, 0x0b], "instr::Instr"),
            15 => (7, &[1, 1, b'a'], &[0], "module::desc::Export"),
            16 => (9, &[1, 0], &[0, 0, 0, 0, 0, 0, 0, 0, 0x0b, 0x0b], "instr::Instr"),
            17 => (10, &[1, 4, 1, 1], &[0x0b], "ty::Val"),
            18 => (10, &[1, 4, 0], &[0, 0x0b], "instr::Instr"),
            19 => (10, &[1, 6, 0, 0x02], &[0x01, 0x0b, 0x0b], "ty::Val"),
            _ => (11, &[1, 0], &[0, 0, 0, 0, 0, 0, 0, 0, 0x0b, 0x0b], "instr::Instr"),
        };
        let mut b = Buf::module();
        let s = b.open(Some(id));
        let x = byte();
        b.put(lead).u(x).put(tail);
        b.close(s);
        let e = err::<Module>(b.s());
        let valid = match name {
            "ty::Func" => x == 0x60,
            "ty::Val" => is_val(x) | ((k == 19) & (x == 0x40)),
            "ty::Elem" => x == 0x70,
            "ty::Limits" | "ty::Mut" => is_bit(x),
            "instr::Instr" => is_plain(x),
            _ => is_kind(x),
        };
        if valid {
            reach(1);
            check(1, !variant(&e, x, name) | (x == 0));
        } else {
            reach(2);
            check(2, variant(&e, x, name));
        }
    }
    /// A number in a place of a module, of any `wide` bytes.
    fn c21_number(at, wide) {
        let b = indices(at, wide as usize);
        let e = err::<Module>(b.s());
        if let Some(e) = &e {
            reach(1);
            check(1, matches!(e, Error::OutOfRangeUnsignedInteger));
        } else {
            reach(2);
        }
        // the first number of a module that does not fit is the only defect
        let mut over = false;
        for i in 0..b.n - 4 {
            over |= (b.b[i] >= 0x80) & (b.b[i + 1] >= 0x80) & (b.b[i + 2] >= 0x80) & (b.b[i + 3] >= 0x80) & (b.b[i + 4] > 0x0f);
        }
        check(2, (wide != 5) | (e.is_some() == over));
    }
    /// The encoding of one item cut short.
    fn c21_short(k) {
        let b: &[u8] = match k {
            0 => &[0x80, 0x80, 0x01],
            1 => &[0xff, 0x80, 0x81, 0x80, 0x01],
            2 => &[1, 2, 3, 4],
            3 => &[1, 2, 3, 4, 5, 6, 7, 8],
            4 => &[3, b'a', b'b', b'c'],
            5 => &[3, 1, 2, 3],
            6 => &[1, 0x80, 1, 0x80, 2],
            7 => &[0x60, 2, 0x7f, 0x7e, 1, 0x7d],
            8 => &[0x70, 1, 1, 2],
            9 => &[0x7f, 1],
            10 => &[1, b'm', 2, b'a', b'b', 3, 0x7f, 0],
            11 => &[2, b'a', b'b', 1, 0x81, 0],
            12 => &[0, 0x41, 1, 0x0b, 2, 1, 2],
            13 => &[0, 0x41, 1, 0x0b, 2, 1, 2],
            14 => &[0x7f, 1, 0x23, 0, 0x0b],
            15 => &[2, 1, 0x7f, 2, 0x7e, 0x02, 0x7f, 0x03, 0x40, 0x0b, 0x41, 0, 0x0b, 0x0b],
            16 => &[0x04, 0x40, 0x01, 0x05, 0x01, 0x0b, 0x0b],
            17 => &[0x0e, 2, 0, 1, 0x80, 0],
            18 => &[0x28, 2, 0x80, 1],
            19 => &[0x11, 1, 0],
            20 => &[0x44, 1, 2, 3, 4, 5, 6, 7, 8],
            _ => &[0x20],
        };
        let n = choose(b.len());
        let b = &b[..n];
        let e = match k {
            0 => err::<u32>(b),
            1 => err::<i64>(b),
            2 => err::<f32>(b),
            3 => err::<f64>(b),
            4 => err::<String>(b),
            5 => err::<Vec<u32>>(b),
            6 => err::<ty::Limits>(b),
            7 => err::<ty::Func>(b),
            8 => err::<ty::Table>(b),
            9 => err::<ty::Global>(b),
            10 => err::<module::Import>(b),
            11 => err::<module::Export>(b),
            12 => err::<module::Elem>(b),
            13 => err::<module::Data>(b),
            14 => err::<module::Global>(b),
            15 => err::<module::Func>(b),
            16 => err::<instr::Expr>(b),
            17 | 18 | 19 | 20 => err::<Instr>(b),
            _ => err::<Byte>(b),
        };
        reach(1);
        check(1, eof(&e));
    }
    /// A constant out of range.
    fn c21_const(w) {
        let mut b = Buf::new();
        b.u(if w == 32 { 0x41 } else { 0x42 });
        for _ in 0..if w == 32 { 4 } else { 9 } { b.u(0xff); }
        let y = byte();
        assume(y < 0x80);
        b.u(y).u(0x0b);
        let e = err::<instr::Expr>(b.s());
        let fits = if w == 32 { (y & 0x78 == 0) | (y & 0x78 == 0x78) } else { (y == 0) | (y == 0x7f) };
        if fits {
            reach(1);
            check(1, e.is_none());
        } else {
            reach(2);
            check(2, matches!(e, Some(Error::OutOfRangeSignedInteger)));
        }
    }
    /// Texts that mention a byte mention that byte.
    fn c21_text(k) {
        let x = byte();
        let hex = |x: u8| if x < 10 { b'0' + x } else { b'A' + x - 10 };
        let e = match k {
            0 => Error::UnexpectedSectionId { id: Byte(x) },
            1 => Error::InvalidSectionId { id: Byte(x) },
            2 => Error::SectionSizeMissmatch { id: Byte(x) },
            _ => Error::InvalidVariantId { id: x, ty: "ty::Val" },
        };
        let s = text(&e);
        reach(1);
        if k < 3 {
            check(1, has(s.as_bytes(), &[b'`', b'0', b'x', hex(x >> 4), hex(x & 15), b'`']));
        } else {
            let d = [b'`', b'0' + x / 100, b'0' + x / 10 % 10, b'0' + x % 10, b'`'];
            let digits = if x > 99 { 3 } else if x > 9 { 2 } else { 1 };
            let mut w = [b'`'; 5];
            for i in 0..digits { w[1 + i] = d[4 - digits + i]; }
            check(2, has(s.as_bytes(), &w[..digits + 2]));
            check(3, has(s.as_bytes(), b"`ty::Val`"));
        }
    }
    /// Every kind of error has a text of its own.
    fn c21_texts() {
        let all = [
            Error::UnexpectedEndOfFile,
            Error::InvalidVariantId { id: 7, ty: "t" },
            Error::OutOfRangeSignedInteger,
            Error::OutOfRangeUnsignedInteger,
            Error::InvalidUtf8Encoding,
            Error::UnexpectedOpcode { instr: "Else" },
            Error::InvalidPreambleMagic,
            Error::InvalidPreambleVersion,
            Error::UnexpectedSectionId { id: Byte(7) },
            Error::InvalidSectionId { id: Byte(7) },
            Error::SectionSizeMissmatch { id: Byte(7) },
            Error::FunctionSizeMissmatch,
            Error::SizeMissmatch,
        ];
        let (i, j) = (choose(13), choose(13));
        assume(i != j);
        let (a, b) = (text(&all[i]), text(&all[j]));
        check(1, !a.is_empty());
        check(2, a != b);
        check(3, (i != 5) | has(a.as_bytes(), b"Else"));
        reach(1);
    }
    /// A defect behind `n` sound parts.
    fn c21_big(n, what) {
        let mut b = Long::new();
        let x = byte();
        match what {
            0 => {
                for _ in 0..n { b.u(0x01); }
                assume(!is_plain(x));
                b.u(x).u(0x0b);
                let e = err::<instr::Expr>(b.s());
                check(30, variant(&e, x, "instr::Instr"));
            }
            1 => {
                b.leb(n);
                for _ in 1..n { b.u(0x7f); }
                assume((x < 0x7c) | (x > 0x7f));
                b.u(x);
                let e = err::<Vec<ty::Val>>(b.s());
                check(31, variant(&e, x, "ty::Val"));
            }
            2 => {
                b.leb(n);
                for _ in 1..n { b.u(b'a'); }
                assume(x >= 0x80);
                b.u(x);
                let e = err::<String>(b.s());
                check(32, matches!(e, Some(Error::InvalidUtf8Encoding)));
            }
            3 => {
                b.leb(n);
                for _ in 1..n { b.u(x); }
                let e = err::<Vec<Byte>>(b.s());
                check(33, eof(&e));
            }
            4 => {
                b = Long::module();
                for _ in 0..n { b.put(&[0, 1, 0]); }
                assume(x > 11);
                b.u(x).u(0);
                let e = err::<Module>(b.s());
                check(34, matches!(e, Some(Error::InvalidSectionId { id }) if id.0 == x));
            }
            _ => {
                b.leb(n + 1 + x as u64 % 4);
                for _ in 0..n { b.u(0x01); }
                b.put(&[0x0b, 0, 0, 0, 0]);
                let e = err::<Sized<instr::Expr>>(b.s());
                check(35, if x % 4 == 0 { e.is_none() } else { size(&e) });
            }
        }
        reach(1);
    }
}
