//! Wrapper types: raw bytes, sized items, skipped content.

use crate::rt::*;
use whasm::binary::{Byte, Consume, Error, Sized, WasmBinary, WasmBinaryParseProxy};

fn hex(x: u8) -> u8 {
    if x < 10 { b'0' + x } else { b'A' + x - 10 }
}

/// A symbolic character.
fn chr() -> char {
    let mut b = [0; 4];
    sym(&mut b);
    let x = u32::from_le_bytes(b);
    assume((x < 0xd800) | ((x > 0xdfff) & (x < 0x110000)));
    match char::from_u32(x) {
        Some(c) => c,
        None => {
            fail(CAPACITY);
            ' '
        }
    }
}

fn two(b: &mut [u8]) -> Option<Sized<[Byte; 2]>> {
    sym(b);
    b[0] = 2;
    let mut c = Cur::new(b);
    let r = c.parse::<Sized<[Byte; 2]>>();
    check(1, r.is_ok());
    check(2, c.pos == 3);
    r.ok()
}

entries! {
    /// One byte read from `n` bytes, and everything that can be done with it.
    fn c20_byte(n) {
        let mut b = [0; 4];
        let b = &mut b[..n as usize];
        sym(b);
        let mut c = Cur::new(b);
        match c.parse::<Byte>() {
            Ok(x) => {
                reach(1);
                check(1, n > 0);
                check(2, c.pos == 1);
                check(3, x.0 == b[0]);
                obs(x.0 as u64);
                check(4, u8::from(x) == b[0]);
                check(5, char::from(Byte(b[0])) as u32 == b[0] as u32);
                check(6, Byte(b[0]).unwrap() == b[0]);
            }
            Err(e) => {
                reach(2);
                check(7, n == 0);
                check(8, e == Error::UnexpectedEndOfFile);
                check(9, c.pos == 0);
            }
        }
    }
    /// Comparison with a number, a character and another byte.
    fn c20_compare() {
        let (x, y, z) = (byte(), byte(), chr());
        let (n, c, b) = (Byte(x) == y, Byte(x) == z, Byte(x) == Byte(y));
        check(1, n == (x == y));
        check(2, c == (x as u32 == z as u32));
        check(3, b == (x == y));
        check(4, (Byte(x) != y) == (x != y));
        check(5, (Byte(x) != z) == (x as u32 != z as u32));
        check(6, (Byte(x) != Byte(y)) == (x != y));
        if n { reach(1); } else { reach(2); }
        if c { reach(3); } else { reach(4); }
        obs(n as u64);
        obs(c as u64);
    }
    /// Arrays of bytes against arrays of numbers and characters.
    fn c20_arrays() {
        let mut x = [0; 4];
        let mut y = [0; 4];
        sym(&mut x);
        sym(&mut y);
        let a = [Byte(x[0]), Byte(x[1]), Byte(x[2]), Byte(x[3])];
        let c = [y[0] as char, y[1] as char, y[2] as char, y[3] as char];
        let same = x == y;
        check(1, (a == y) == same);
        check(2, (a == c) == same);
        if same { reach(1); } else { reach(2); }
        obs(same as u64);
    }
    /// Both printed forms.
    fn c20_show() {
        let x = byte();
        let want = [b'0', b'x', hex(x >> 4), hex(x & 15)];
        let s = format!("{}", Byte(x));
        let d = format!("{:?}", Byte(x));
        check(1, s.as_bytes() == want);
        check(2, d.as_bytes() == want);
        reach(1);
        for c in s.bytes() { obs(c as u64); }
    }
    /// Sized items among each other and against their content.
    fn c20_sized() {
        let (mut x, mut y) = ([0; 3], [0; 3]);
        let z = [byte(), byte()];
        if let (Some(a), Some(b)) = (two(&mut x), two(&mut y)) {
            let same = (x[1] == y[1]) & (x[2] == y[2]);
            check(3, (a == b) == same);
            check(4, (a != b) == !same);
            let other = (x[1] == z[0]) & (x[2] == z[1]);
            check(5, (a == [Byte(z[0]), Byte(z[1])]) == other);
            if same { reach(1); } else { reach(2); }
            if other { reach(3); } else { reach(4); }
            let [p, q] = a.unwrap();
            check(6, (p.0 == x[1]) & (q.0 == x[2]));
            obs(p.0 as u64);
            obs(q.0 as u64);
        }
    }
    /// Sized items printed.
    fn c20_sized_show() {
        let mut x = [0; 3];
        if let Some(a) = two(&mut x) {
            let s = format!("{:?}", a);
            let want = [hex(x[1] >> 4), hex(x[1] & 15), hex(x[2] >> 4), hex(x[2] & 15)];
            let w = b"Sized([0x??, 0x??])";
            check(3, s.len() == w.len());
            let mut k = 0;
            let mut ok = true;
            for (i, c) in s.bytes().enumerate() {
                if i < w.len() && w[i] != b'?' {
                    ok &= c == w[i];
                } else if k < 4 {
                    ok &= c == want[k];
                    k += 1;
                }
                obs(c as u64);
            }
            check(4, ok);
            reach(1);
        }
    }
    /// Skipping counts the bytes up to the end, alone and within a sized item of `n` of `m` bytes.
    fn c20_consume(n, m) {
        let mut b = [0; 260];
        let b = &mut b[..m as usize + 2];
        sym(b);
        let mut c = Cur::new(b);
        match c.parse::<Consume>() {
            Ok(x) => {
                reach(1);
                check(1, x.count == b.len());
                check(2, c.pos == b.len());
            }
            Err(_) => fail(3),
        }
        b[0] = n as u8 | 0x80;
        b[1] = (n >> 7) as u8;
        let mut c = Cur::new(b);
        match c.parse::<Sized<Consume>>() {
            Ok(x) => {
                reach(2);
                check(4, n <= m);
                check(5, x.unwrap().count == n as usize);
                check(6, c.pos == n as usize + 2);
                obs(c.pos as u64);
            }
            Err(_) => check(7, n > m),
        }
    }
}
