//! Reference decoding of single items together with the error they must give.

use whasm::binary::Error;

/// Outcome of decoding: value, or which error is right.
#[derive(Clone, Copy)]
pub enum P {
    Val(u64),
    Eof,
    Range,
    /// cut off and already out of range: either error is right
    Cut,
    /// any error is right
    Any,
}

/// Whether an error of the implementation is the right one.
pub fn right(e: &Error, p: &P, signed: bool) -> bool {
    let eof = matches!(e, Error::UnexpectedEndOfFile);
    let range = if signed { matches!(e, Error::OutOfRangeSignedInteger) } else { matches!(e, Error::OutOfRangeUnsignedInteger) };
    match p {
        P::Val(_) => false,
        P::Eof => eof,
        P::Range => range,
        P::Cut => eof || range,
        P::Any => true,
    }
}

/// Unsigned LEB128 at `b[*p..]`; advances over the bytes up to the terminator.
#[inline(never)]
pub fn leb(b: &[u8], p: &mut usize, bits: u32) -> P {
    let s = *p;
    let mut n = 0;
    let mut cut = true;
    while s + n < b.len() {
        n += 1;
        if b[s + n - 1] < 0x80 {
            cut = false;
            break;
        }
    }
    *p = s + n;
    // bits at or above the width, over everything that was read
    let mut v = 0u64;
    let mut over = false;
    for i in 0..n {
        let x = (b[s + i] & 0x7f) as u64;
        let sh = 7 * i as u32;
        if sh < 64 {
            v |= x << sh;
            if sh + 7 > 64 {
                over |= (x >> (64 - sh)) != 0;
            }
        } else {
            over |= x != 0;
        }
    }
    if bits < 64 {
        over |= (v >> bits) != 0;
    }
    match (cut, over) {
        (false, false) => P::Val(v),
        (false, true) => P::Range,
        (true, false) => P::Eof,
        (true, true) => P::Cut,
    }
}

/// Signed LEB128: the bits from the sign bit of the width upwards must all be equal.
#[inline(never)]
pub fn sleb(b: &[u8], p: &mut usize, bits: u32) -> P {
    let s = *p;
    let mut n = 0;
    let mut cut = true;
    while s + n < b.len() {
        n += 1;
        if b[s + n - 1] < 0x80 {
            cut = false;
            break;
        }
    }
    *p = s + n;
    let mut v = 0u64;
    let mut all1 = true;
    let mut all0 = true;
    let top = bits - 1;
    for i in 0..n {
        let x = (b[s + i] & 0x7f) as u64;
        let sh = 7 * i as u32;
        if sh < 64 {
            v |= x << sh;
        }
        // the part of this group at or above the sign bit
        if sh + 7 > top {
            let k = if sh >= top { 0 } else { top - sh };
            all0 &= (x >> k) == 0;
            all1 &= (x >> k) == (0x7f >> k);
        }
    }
    let mut over = false;
    if 7 * n as u32 > top {
        over = !(all0 | all1);
        if bits < 64 {
            let m = (1u64 << bits) - 1;
            v = if all1 { v | !m } else { v & m };
        }
    } else if n > 0 {
        // sign bit of the last group
        let sh = 7 * n as u32;
        v = if b[s + n - 1] & 0x40 != 0 { v | (!0u64 << sh) } else { v };
    }
    match (cut, over) {
        (false, false) => P::Val(v),
        (false, true) => P::Range,
        (true, false) => P::Eof,
        (true, true) => P::Cut,
    }
}

/// One raw byte.
pub fn raw(b: &[u8], p: &mut usize) -> P {
    if *p < b.len() {
        *p += 1;
        P::Val(b[*p - 1] as u64)
    } else {
        P::Eof
    }
}

/// Little-endian fixed-width value.
pub fn fixed(b: &[u8], p: &mut usize, n: usize) -> P {
    if b.len() - *p < n {
        *p = b.len();
        return P::Eof;
    }
    let mut v = 0u64;
    for i in 0..n {
        v |= (b[*p + i] as u64) << (8 * i);
    }
    *p += n;
    P::Val(v)
}
