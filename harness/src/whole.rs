//! Whole modules: decoding and validation against the reference, and building blocks.

use crate::flat;
use crate::rt::*;
use crate::spec::Mod;
use crate::tr::Tr;
use whasm::binary::WasmBinary;
use whasm::structure::module::Module;
use whasm::validation::ValidationEntry;

/// Most locals of a function, besides parameters, in the bounded checks.
pub const MOST: u64 = 6;

/// Decoding verdict and content of a module.
pub fn decode(b: &[u8]) {
    let mut m = Mod::new();
    m.syntax = true;
    decode_with(b, &mut m, None);
}

/// The same with the reference running first, so that its bounds hold for whasm as well.
pub fn decode_bounded(b: &[u8]) {
    let mut m = Mod::new();
    m.bound = MOST;
    m.syntax = true;
    let want = m.module(b).is_some();
    decode_with(b, &mut m, Some(want));
}

fn decode_with(b: &[u8], m: &mut Mod, want: Option<bool>) {
    let mut c = Cur::new(b);
    let r = c.parse::<Module>();
    let want = match want {
        Some(w) => w,
        None => m.module(b).is_some(),
    };
    match &r {
        Ok(x) => {
            reach(1);
            check(10, want);
            let mut t = Tr::new();
            flat::module(&mut t, x);
            check(11, t.same(&m.t));
            check(12, c.pos == b.len());
            t.observe();
        }
        Err(_) => {
            reach(2);
            check(13, !want);
            obs(!0);
        }
    }
}

/// Accepted or rejected, as a whole, and the reported external types.
pub fn verdict(b: &[u8]) {
    let mut m = Mod::new();
    verdict_with(b, &mut m, None);
}

pub fn verdict_bounded(b: &[u8]) {
    let mut m = Mod::new();
    m.bound = MOST;
    let want = m.module(b).is_some() & m.ok;
    verdict_with(b, &mut m, Some(want));
}

fn verdict_with(b: &[u8], m: &mut Mod, want: Option<bool>) {
    let mut c = Cur::new(b);
    let r = c.parse::<Module>();
    let mut t = Tr::new();
    let mut got = false;
    if let Ok(x) = &r {
        if let Ok(e) = x.validate() {
            got = true;
            flat::externals(&mut t, &e);
        }
    }
    let want = match want {
        Some(w) => w,
        None => m.module(b).is_some() & m.ok,
    };
    if got {
        reach(1);
        check(21, want);
        let mut u = Tr::new();
        m.externals(&mut u);
        check(23, t.same(&u));
        t.observe();
    } else {
        reach(2);
        check(22, !want);
        obs(!0);
    }
}

/// A symbolic choice made concrete.
pub fn choose(n: usize) -> usize {
    let k = byte() as usize;
    assume(k < n);
    let mut i = 0;
    while i + 1 < n {
        if k == i {
            return i;
        }
        i += 1;
    }
    n - 1
}

/// Verdict on a long module.
pub fn long(b: &Long, want: bool) {
    let got = match Cur::new(b.s()).parse::<Module>() {
        Ok(m) => m.validate().is_ok(),
        Err(_) => false,
    };
    check(60, got == want);
    if got { reach(1); } else { reach(2); }
    obs(got as u64);
}

/// A symbolic value type.
pub fn vt() -> u8 {
    let k = byte();
    assume((k >= 0x7c) & (k <= 0x7f));
    k
}

/// A symbolic block type.
pub fn bt() -> u8 {
    let k = byte();
    assume(((k >= 0x7c) & (k <= 0x7f)) | (k == 0x40));
    k
}

/// A symbolic number below `n`.
pub fn below(n: u8) -> u8 {
    let k = byte();
    assume(k < n);
    k
}

impl Buf {
    /// Function type with `np` symbolic parameters and `nr` symbolic results.
    pub fn ftype(&mut self, np: usize, nr: usize) -> &mut Self {
        self.u(0x60).u(np as u8);
        for _ in 0..np {
            self.u(vt());
        }
        self.u(nr as u8);
        for _ in 0..nr {
            self.u(vt());
        }
        self
    }
    /// A number in exactly `w` bytes, any value.
    pub fn num(&mut self, w: usize) -> &mut Self {
        let at = self.n;
        self.sym(w);
        for i in 0..w {
            assume((self.b[at + i] >= 0x80) == (i + 1 < w));
        }
        self
    }
    /// One of: unreachable, nop, drop (followed by nop), i32.const 0, i64.const 0, local.get 0
    /// (`more`: f32 and f64 constants are left to parameters).
    pub fn token(&mut self) -> &mut Self {
        let o = byte();
        let x = byte();
        assume((((o == 0x00) | (o == 0x01) | (o == 0x1a)) & (x == 1)) | (((o == 0x41) | (o == 0x42) | (o == 0x20)) & (x == 0)));
        self.u(o).u(x)
    }
    /// A branch, conditional branch, return, unreachable or nop; labels below `n`.
    pub fn jump(&mut self, n: u8) -> &mut Self {
        let o = byte();
        let x = byte();
        assume((((o == 0x0c) | (o == 0x0d)) & (x < n)) | (((o == 0x0f) | (o == 0x00) | (o == 0x01)) & (x == 1)));
        self.u(o).u(x)
    }
}

/// A module with every kind of section, accepted by validation. `cut` receives where each section
/// starts.
pub fn full(cut: &mut [usize; 13]) -> Buf {
    let mut b = Buf::module();
    for i in 0..12 {
        cut[i] = b.n;
        match i {
            1 => b.sec(1, &[3, 0x60, 0, 0, 0x60, 2, 0x7f, 0x7e, 1, 0x7d, 0x60, 1, 0x7c, 0]),
            2 => b.sec(2, &[3, 1, b'm', 1, b'f', 0, 1, 2, b'm', b'm', 0, 3, 0x7f, 0, 1, b'm', 1, b'h', 3, 0x7c, 1]),
            3 => b.sec(3, &[2, 0, 1]),
            4 => b.sec(4, &[1, 0x70, 1, 2, 5]),
            5 => b.sec(5, &[1, 1, 1, 0x80, 0x02]),
            6 => b.sec(6, &[3, 0x7f, 1, 0x41, 7, 0x0b, 0x7d, 0, 0x43, 1, 2, 3, 4, 0x0b, 0x7f, 0, 0x23, 0, 0x0b]),
            7 => b.sec(7, &[4, 1, b'a', 0, 1, 1, b'b', 2, 0, 2, b'a', b'b', 3, 1, 0, 1, 0]),
            8 => b.sec(8, &[1]),
            9 => b.sec(9, &[2, 0, 0x23, 0, 0x0b, 2, 1, 2, 0, 0x41, 1, 0x0b, 1, 0]),
            10 => {
                let s = b.open(Some(10));
                b.u(2);
                let f = b.open(None);
                b.put(&[2, 2, 0x7e, 1, 0x7f]);
                b.put(&[0x02, 0x40, 0x41, 5, 0x0d, 0, 0x41, 0, 0x28, 2, 4, 0x21, 2, 0x0b]);
                b.put(&[0x03, 0x7f, 0x20, 2, 0x04, 0x7f, 0x41, 1, 0x05, 0x23, 2, 0x0b, 0x0b]);
                b.put(&[0x24, 2, 0x20, 0, 0x1a, 0x41, 0, 0x42, 9, 0x10, 0, 0x1a, 0x0b]);
                b.close(f);
                let f = b.open(None);
                b.put(&[1, 1, 0x7d, 0x02, 0x40, 0x20, 0, 0x0e, 1, 0, 0, 0x0b]);
                b.put(&[0x20, 0, 0x45, 0x04, 0x7d, 0x20, 2, 0x05, 0x20, 0, 0x20, 1, 0x41, 0, 0x11, 1, 0, 0x0b]);
                b.put(&[0x43, 0, 0, 0x80, 0x7f, 0x20, 0, 0x1b, 0x0b]);
                b.close(f);
                b.close(s)
            }
            11 => b.sec(11, &[1, 0, 0x23, 2, 0x0b, 3, 7, 8, 9]),
            _ => &mut b,
        };
    }
    cut[12] = b.n;
    b
}

/// A valid module in which one index or limit outside of bodies, the one numbered `at`, is any number
/// of `wide` bytes.
pub fn indices(at: u64, wide: usize) -> Buf {
    let mut b = Buf::module();
    let w = |b: &mut Buf, i: u64, small: u8| {
        if i == at { b.num(wide); } else { b.u(small); }
    };
    b.sec(1, &[1, 0x60, 0, 0]);
    let s = b.open(Some(2));
    b.u(2).put(&[0, 0, 0]);
    w(&mut b, 0, 0);
    b.put(&[0, 0, 1, 0x70, 1]);
    w(&mut b, 1, 0);
    w(&mut b, 2, 0);
    b.close(s);
    let s = b.open(Some(3));
    b.u(1);
    w(&mut b, 3, 0);
    b.close(s);
    let s = b.open(Some(5));
    b.put(&[1, 1]);
    w(&mut b, 4, 1);
    w(&mut b, 5, 1);
    b.close(s);
    let s = b.open(Some(6));
    b.put(&[1, 0x7f, 0]);
    if at == 6 { b.u(0x23).num(wide); } else { b.put(&[0x41, 0]); }
    b.u(0x0b);
    b.close(s);
    let s = b.open(Some(7));
    b.u(1).u(0);
    if at >= 7 && at <= 10 { b.u(at as u8 - 7).num(wide); } else { b.u(0).u(0); }
    b.close(s);
    let s = b.open(Some(8));
    w(&mut b, 11, 0);
    b.close(s);
    let s = b.open(Some(9));
    b.u(1);
    w(&mut b, 12, 0);
    b.put(&[0x41, 0, 0x0b, 1]);
    w(&mut b, 13, 0);
    b.close(s);
    b.sec(10, &[1, 2, 0, 0x0b]);
    let s = b.open(Some(11));
    b.u(1);
    w(&mut b, 14, 0);
    b.put(&[0x41, 0, 0x0b, 1, 0]);
    b.close(s);
    b
}
