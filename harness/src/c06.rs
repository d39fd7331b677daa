//! Items delimited by a byte size.

use crate::prim::*;
use crate::rt::*;
use whasm::structure::module::Module;
use crate::tr::Tr;
use crate::whole::{choose, decode};
use whasm::binary::{Byte, Consume, Sized, UnwrappingVec, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};

/// Reference for the content: decodes within `b[p..end]`, `None` on failure.
type Item = fn(&[u8], &mut usize, &mut Tr) -> bool;

fn i_u32(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    match leb(b, p, 32) {
        P::Val(x) => {
            t.p(x);
            true
        }
        _ => false,
    }
}
fn i_bytes(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    match leb(b, p, 32) {
        P::Val(n) if n as usize <= b.len() - *p => {
            let n = n as usize;
            for i in 0..n {
                t.p(b[*p + i] as u64);
            }
            *p += n;
            true
        }
        _ => false,
    }
}
fn i_three(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    if b.len() - *p < 3 {
        return false;
    }
    for i in 0..3 {
        t.p(b[*p + i] as u64);
    }
    *p += 3;
    true
}
fn i_all(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    t.p((b.len() - *p) as u64);
    *p = b.len();
    true
}
fn i_none(_: &[u8], _: &mut usize, _: &mut Tr) -> bool {
    true
}
fn i_sized_u32(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    sized(b, p, t, i_u32)
}
fn i_pair(b: &[u8], p: &mut usize, t: &mut Tr) -> bool {
    sized(b, p, t, i_u32) && sized(b, p, t, i_u32)
}

/// Size, then content of exactly that size.
#[inline(always)]
fn sized(b: &[u8], p: &mut usize, t: &mut Tr, item: Item) -> bool {
    match leb(b, p, 32) {
        P::Val(n) if n as usize <= b.len() - *p => {
            let end = *p + n as usize;
            item(&b[..end], p, t) && *p == end
        }
        _ => false,
    }
}

fn run<T: WasmBinaryParse>(b: &[u8], item: Item, f: impl FnOnce(T, &mut Tr)) {
    let mut c = Cur::new(b);
    let r = c.parse::<Sized<T>>();
    let (mut t, mut p) = (Tr::new(), 0);
    // where the declared content ends
    let mut q = 0;
    let end = match leb(b, &mut q, 32) {
        P::Val(n) => q as u64 + n,
        _ => q as u64,
    };
    let ok = sized(b, &mut p, &mut t, item);
    check(1, c.pos as u64 <= end);
    match r {
        Ok(v) => {
            reach(1);
            check(2, ok);
            let mut g = Tr::new();
            f(v.unwrap(), &mut g);
            check(3, g.same(&t));
            check(4, c.pos == p);
            g.observe();
        }
        Err(_) => {
            reach(2);
            check(5, !ok);
            obs(!0);
        }
    }
    obs(c.pos as u64);
}

fn put(v: &[u8], t: &mut Tr) {
    for x in v {
        t.p(*x as u64);
    }
}

fn kind(k: u64, b: &[u8]) {
    match k {
        0 => run::<u32>(b, i_u32, |v, t| t.p(v as u64)),
        1 => run::<UnwrappingVec<Byte>>(b, i_bytes, |v, t| put(&v.unwrap(), t)),
        2 => run::<[Byte; 3]>(b, i_three, |v, t| put(&[v[0].0, v[1].0, v[2].0], t)),
        3 => run::<Consume>(b, i_all, |v, t| t.p(v.count as u64)),
        4 => run::<[Byte; 0]>(b, i_none, |_, _| ()),
        5 => run::<Sized<u32>>(b, i_sized_u32, |v, t| t.p(v.unwrap() as u64)),
        _ => run::<[Sized<u32>; 2]>(b, i_pair, |v, t| {
            for x in v {
                t.p(x.unwrap() as u64);
            }
        }),
    }
}

/// Contents of the sections, each valid on its own.
pub const CONTENT: [&[u8]; 12] = [
    &[2, b'n', b'm', 9, 9],
    &[2, 0x60, 1, 0x7f, 0, 0x60, 0, 1, 0x7e],
    &[1, 1, b'm', 1, b'f', 0, 0],
    &[1, 0],
    &[1, 0x70, 0, 1],
    &[1, 1, 1, 2],
    &[1, 0x7f, 1, 0x41, 5, 0x0b],
    &[1, 1, b'e', 0, 0],
    &[0],
    &[1, 0, 0x41, 0, 0x0b, 2, 0, 0],
    &[1, 4, 0, 0x41, 3, 0x0b],
    &[1, 0, 0x41, 1, 0x0b, 3, 7, 8, 9],
];

entries! {
    fn c06_free(k, n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        kind(k, b.s());
    }
    /// Size encoded in `w` bytes, any value, then `n` bytes of content.
    fn c06_size(k, w, n) {
        let mut b = Buf::new();
        b.sym(w as usize);
        for i in 0..w as usize {
            assume((b.b[i] >= 0x80) == (i + 1 < w as usize));
        }
        b.sym(n as usize);
        kind(k, b.s());
    }
    /// Long content: size and inner length symbolic around `n` available bytes.
    fn c06_long(n) {
        let mut b = Buf::new();
        b.sym(2).sym(2);
        assume((b.b[0] >= 0x80) & (b.b[1] < 0x80) & (b.b[2] >= 0x80) & (b.b[3] < 0x80));
        for i in 0..n { b.u(i as u8); }
        kind(1, b.s());
    }
    /// A module with section `id` of symbolic size (in `w` bytes), followed by `tail` bytes and,
    /// before it, whatever else the section needs.
    fn c06_section(id, w, tail) {
        let mut b = Buf::module();
        let id = id as usize;
        if id == 10 { b.sec(3, CONTENT[3]); }
        b.u(id as u8);
        let at = b.n;
        b.sym(w as usize);
        for i in 0..w as usize {
            assume((b.b[at + i] >= 0x80) == (i + 1 < w as usize));
        }
        b.put(CONTENT[id]);
        if id == 3 {
            b.sec(10, CONTENT[10]);
        } else {
            // a custom section, so that what follows is well-formed
            let t = [0, 4, 1, b'z', 1, 2];
            b.put(&t[..tail as usize]);
        }
        decode(b.s());
    }
    /// Section `id` with right size but symbolic entry count.
    fn c06_count(id) {
        let mut b = Buf::module();
        let id = id as usize;
        if id == 10 { b.sec(3, CONTENT[3]); }
        b.u(id as u8).u(CONTENT[id].len() as u8);
        b.sym(1).put(&CONTENT[id][1..]);
        decode(b.s());
    }
    /// Two function bodies with symbolic sizes inside a code section of symbolic size.
    fn c06_code(first) {
        let mut b = Buf::module();
        b.sec(3, &[2, 0, 0]).u(10);
        b.sym(1).u(2);
        if first == 0 {
            b.sym(1).put(&[0, 0x41, 3, 0x0b]).sym(1).put(&[1, 1, 0x7f, 0x0b]);
        } else {
            b.u(4).put(&[0, 0x41, 3, 0x0b]).sym(1).put(&[1, 1, 0x7f, 0x20, 0, 0x1a, 0x0b]);
        }
        decode(b.s());
    }
    /// Skipped content and a custom section of `n` bytes against sizes like and unlike that.
    fn c06_big(n, inside) {
        let mut b = if inside != 0 { Long::module() } else { Long::new() };
        if inside != 0 { b.u(0); }
        let head = b.0.len() + 3;
        let size = [0, 1, n - 1, n, n + 1, n + 2, n & 0xff, n & 0xffff, n + 256, n + 65536][choose(10)];
        b.u(size as u8 | 0x80).u((size >> 7) as u8 | 0x80).u((size >> 14) as u8);
        b.put(&[1, b'x']);
        for i in 2..n { b.u(i as u8); }
        let mut c = Cur::new(b.s());
        let got = if inside != 0 {
            // what follows the section would be one as well
            assume(size >= n);
            c.parse::<Module>().is_ok()
        } else {
            match c.parse::<Sized<Consume>>() {
                Ok(x) => {
                    check(30, x.unwrap().count as u64 == size);
                    true
                }
                Err(_) => false,
            }
        };
        check(31, got == if inside != 0 { size == n } else { size <= n });
        if got {
            reach(1);
            check(32, c.pos as u64 == head as u64 + size);
        } else {
            reach(2);
        }
        obs(got as u64);
    }
}
