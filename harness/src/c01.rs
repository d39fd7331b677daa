//! Unsigned variable-length integers.

use crate::prim::*;
use crate::rt::*;
use crate::spec::Rd;
use whasm::binary::{Error, WasmBinary};

pub fn run(n: usize, bits: u32, signed: bool, f: impl FnOnce(&mut Cur) -> Result<u64, Error>) {
    let mut buf = [0u8; 80];
    sym(&mut buf[..n]);
    run_on(&buf[..n], bits, signed, f)
}

/// A symbolic byte, `n` times `pad`, and two symbolic bytes.
pub fn padded(n: u64, pad: u64) -> Long {
    let mut b = Long::new();
    b.u(byte());
    for _ in 0..n { b.u(pad as u8); }
    b.u(byte()).u(byte());
    b
}

pub fn run_on(b: &[u8], bits: u32, signed: bool, f: impl FnOnce(&mut Cur) -> Result<u64, Error>) {
    let mut c = Cur::new(b);
    let r = f(&mut c);
    let mut k = 0;
    let w = if signed { sleb(b, &mut k, bits) } else { leb(b, &mut k, bits) };
    match &w {
        P::Val(_) => reach(1),
        P::Range => reach(2),
        P::Eof => reach(3),
        _ => reach(4),
    }
    match (&r, &w) {
        (Ok(v), P::Val(x)) => {
            check(1, *v == *x);
            check(2, c.pos == k);
        }
        (Ok(_), _) => fail(3),
        (Err(e), w) => {
            check(4, right(e, w, signed));
            check(5, c.pos <= k);
        }
    }
    match r {
        Ok(v) => obs(v),
        Err(_) => obs(!0),
    }
    obs(c.pos as u64);
}

entries! {
    fn c01_u8(n) { run(n as usize, 8, false, |c| c.parse::<u8>().map(|x| x as u64)) }
    fn c01_u16(n) { run(n as usize, 16, false, |c| c.parse::<u16>().map(|x| x as u64)) }
    fn c01_u32(n) { run(n as usize, 32, false, |c| c.parse::<u32>().map(|x| x as u64)) }
    fn c01_u64(n) { run(n as usize, 64, false, |c| c.parse::<u64>()) }
    /// Long padding.
    fn c01_pad(bits, n, pad) {
        let b = padded(n, pad);
        match bits {
            8 => run_on(b.s(), 8, false, |c| c.parse::<u8>().map(|x| x as u64)),
            16 => run_on(b.s(), 16, false, |c| c.parse::<u16>().map(|x| x as u64)),
            32 => run_on(b.s(), 32, false, |c| c.parse::<u32>().map(|x| x as u64)),
            _ => run_on(b.s(), 64, false, |c| c.parse::<u64>()),
        }
    }
    /// The decoder of the module reference model agrees with the one above.
    fn c01_ref(n, bits) {
        let n = n as usize;
        let mut buf = [0u8; 32];
        sym(&mut buf[..n]);
        let mut r = Rd::new(&buf[..n]);
        let x = r.leb(bits as u32);
        let mut k = 0;
        match (x, leb(&buf[..n], &mut k, bits as u32)) {
            (Some(v), P::Val(w)) => check(6, (v == w) & (r.p == k)),
            (None, P::Val(..)) | (Some(_), _) => fail(7),
            _ => (),
        }
    }
}
