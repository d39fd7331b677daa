//! Signed variable-length integers.

use crate::c01::{padded, run, run_on};
use crate::prim::*;
use crate::rt::*;
use crate::spec::Rd;
use whasm::binary::WasmBinary;

entries! {
    fn c02_i8(n) { run(n as usize, 8, true, |c| c.parse::<i8>().map(|x| x as i64 as u64)) }
    fn c02_i16(n) { run(n as usize, 16, true, |c| c.parse::<i16>().map(|x| x as i64 as u64)) }
    fn c02_i32(n) { run(n as usize, 32, true, |c| c.parse::<i32>().map(|x| x as i64 as u64)) }
    fn c02_i64(n) { run(n as usize, 64, true, |c| c.parse::<i64>().map(|x| x as u64)) }
    /// Long padding.
    fn c02_pad(bits, n, pad) {
        let b = padded(n, pad);
        match bits {
            8 => run_on(b.s(), 8, true, |c| c.parse::<i8>().map(|x| x as i64 as u64)),
            16 => run_on(b.s(), 16, true, |c| c.parse::<i16>().map(|x| x as i64 as u64)),
            32 => run_on(b.s(), 32, true, |c| c.parse::<i32>().map(|x| x as i64 as u64)),
            _ => run_on(b.s(), 64, true, |c| c.parse::<i64>().map(|x| x as u64)),
        }
    }
    /// The decoder of the module reference model agrees with the one above.
    fn c02_ref(n, bits) {
        let n = n as usize;
        let mut buf = [0u8; 32];
        sym(&mut buf[..n]);
        let mut r = Rd::new(&buf[..n]);
        let x = r.sleb(bits as u32);
        let mut k = 0;
        match (x, sleb(&buf[..n], &mut k, bits as u32)) {
            (Some(v), P::Val(w)) => check(6, (v as u64 == w) & (r.p == k)),
            (None, P::Val(..)) | (Some(_), _) => fail(7),
            _ => (),
        }
    }
}
