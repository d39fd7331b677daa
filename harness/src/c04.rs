//! Names.

use crate::prim::*;
use crate::rt::*;
use crate::spec::utf8;
use whasm::binary::{Error, WasmBinary};
use whasm::structure::module::{desc, Export, Import, Module};

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

/// A string at the start of the stream.
fn string(b: &[u8]) {
    let mut c = Cur::new(b);
    let r = c.parse::<String>();
    let mut p = 0;
    match leb(b, &mut p, 32) {
        P::Val(n) => {
            let n = n as usize;
            if n > b.len() - p {
                reach(2);
                let well = utf8(&b[p..]);
                match &r {
                    Ok(_) => fail(1),
                    Err(Error::UnexpectedEndOfFile) => (),
                    Err(Error::InvalidUtf8Encoding) => check(2, !well),
                    Err(_) => fail(3),
                }
            } else {
                let want = &b[p..p + n];
                let well = utf8(want);
                match &r {
                    Ok(s) => {
                        reach(1);
                        check(4, well);
                        check(5, same(s.as_bytes(), want));
                        check(6, c.pos == p + n);
                    }
                    Err(Error::InvalidUtf8Encoding) => {
                        reach(3);
                        check(7, !well);
                        check(8, c.pos <= p + n);
                    }
                    Err(_) => fail(9),
                }
            }
        }
        w => match &r {
            Ok(_) => fail(10),
            Err(e) => check(11, right(e, &w, false)),
        },
    }
    match &r {
        Ok(s) => {
            obs(s.len() as u64);
            for x in s.bytes() {
                obs(x as u64);
            }
        }
        Err(_) => obs(!0),
    }
}

/// The name found by `f` is the `n` bytes at `at`; everything else in the stream is right.
fn placed(b: &[u8], at: usize, n: usize, f: impl FnOnce(&mut Cur) -> Option<Option<String>>) {
    let mut c = Cur::new(b);
    let well = utf8(&b[at..at + n]);
    match f(&mut c) {
        Some(s) => {
            reach(1);
            check(20, well);
            if let Some(s) = &s {
                check(21, same(s.as_bytes(), &b[at..at + n]));
                obs(s.len() as u64);
            }
            check(22, c.pos == b.len());
        }
        None => {
            reach(3);
            check(23, !well);
            obs(!0);
        }
    }
}

entries! {
    /// Everything symbolic.
    fn c04_free(n) {
        let mut buf = [0u8; 16];
        sym(&mut buf[..n as usize]);
        string(&buf[..n as usize]);
    }
    /// Declared length `len`, with `n` bytes following.
    fn c04_len(len, n) {
        let mut b = Buf::new();
        b.leb(len as u32).sym(n as usize);
        string(b.s());
    }
    /// `k` symbolic bytes at offset `at` of a text of `len` bytes (past any word-at-a-time path).
    fn c04_long(len, at, k) {
        let mut b = Buf::new();
        b.leb(len as u32);
        for i in 0..at { b.u(b'a' + (i % 26) as u8); }
        b.sym(k as usize);
        for i in at + k..len { b.u(b'A' + (i % 26) as u8); }
        b.u(0xff);
        string(b.s());
    }
    fn c04_import_module(n) {
        let mut b = Buf::new();
        b.u(n as u8).sym(n as usize).put(&[1, b'x', 0, 5]);
        placed(b.s(), 1, n as usize, |c| c.parse::<Import>().ok().map(|i| {
            check(30, same(i.name.as_bytes(), b"x") && matches!(i.desc, desc::Import::Func(ref t) if t.0 == 5));
            Some(i.module)
        }));
    }
    fn c04_import_name(n) {
        let mut b = Buf::new();
        b.put(&[2, b'x', b'y']).u(n as u8).sym(n as usize).put(&[0, 5]);
        placed(b.s(), 4, n as usize, |c| c.parse::<Import>().ok().map(|i| {
            check(31, same(i.module.as_bytes(), b"xy"));
            Some(i.name)
        }));
    }
    fn c04_export(n) {
        let mut b = Buf::new();
        b.u(n as u8).sym(n as usize).put(&[0, 5]);
        placed(b.s(), 1, n as usize, |c| c.parse::<Export>().ok().map(|i| Some(i.name)));
    }
    /// Custom section of a module: the name must be well-formed, the payload is free.
    fn c04_custom(n, pay) {
        let mut b = Buf::module();
        b.u(0).u((n + pay + 1) as u8).u(n as u8);
        let at = b.n;
        b.sym(n as usize).sym(pay as usize);
        placed(b.s(), at, n as usize, |c| c.parse::<Module>().ok().map(|_| None));
    }
    /// Import (kind 2) or export (kind 7) section of a module with two entries; the second is symbolic.
    fn c04_section(kind, n) {
        let mut b = Buf::module();
        let s = b.open(Some(kind as u8));
        b.u(2);
        if kind == 2 { b.put(&[1, b'm', 1, b'n', 3, 0x7f, 0, 1, b'o']); } else { b.put(&[1, b'n', 3, 0]); }
        b.u(n as u8);
        let at = b.n;
        b.sym(n as usize);
        if kind == 2 { b.put(&[3, 0x7f, 0]); } else { b.put(&[0, 0]); }
        b.close(s);
        placed(b.s(), at, n as usize, |c| c.parse::<Module>().ok().map(|m| {
            if kind == 2 {
                check(32, m.imports.len() == 2 && same(m.imports[1].module.as_bytes(), b"o") && same(m.imports[0].name.as_bytes(), b"n"));
                Some(m.imports.into_iter().last().unwrap().name)
            } else {
                check(33, m.exports.len() == 2 && same(m.exports[0].name.as_bytes(), b"n"));
                Some(m.exports.into_iter().last().unwrap().name)
            }
        }));
    }
    /// A name of `len` bytes, one of them, at `at`, symbolic.
    fn c04_big(len, at) {
        let mut b = Long::new();
        b.leb(len);
        let head = b.0.len();
        for i in 0..len { b.u(b'a' + (i % 23) as u8); }
        let x = byte();
        b.0[head + at as usize] = x;
        b.u(0);
        let mut c = Cur::new(b.s());
        match c.parse::<String>() {
            Ok(s) => {
                reach(1);
                check(20, x < 0x80);
                check(21, s.len() == len as usize);
                check(22, s.as_bytes() == &b.0[head..head + len as usize]);
                check(23, c.pos == head + len as usize);
                obs(s.len() as u64);
            }
            Err(e) => {
                reach(2);
                check(24, x >= 0x80);
                check(25, matches!(e, Error::InvalidUtf8Encoding));
            }
        }
    }
}
