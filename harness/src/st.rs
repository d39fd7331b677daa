//! Self-test of the symbolic executor: paths and observed values are compared with native runs.

use crate::rt::*;

/// Symbolic bytes, shifted so that the solver's favourite zero stands for various values.
fn bytes<const N: usize>(seed: u64) -> [u8; N] {
    let mut b = Buf::new();
    b.sym(N);
    let mut o = [0; N];
    let mut x = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    for i in 0..N {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        o[i] = b.s()[i] ^ (x >> 24) as u8;
    }
    o
}
fn f32s(seed: u64) -> (f32, f32) {
    let s = bytes::<8>(seed);
    (f32::from_le_bytes([s[0], s[1], s[2], s[3]]), f32::from_le_bytes([s[4], s[5], s[6], s[7]]))
}
fn f64s(seed: u64) -> (f64, f64) {
    let s = bytes::<16>(seed);
    let g = |o: usize| {
        let mut t = [0; 8];
        t.copy_from_slice(&s[o..o + 8]);
        f64::from_le_bytes(t)
    };
    (g(0), g(8))
}

macro_rules! floats {
    ($get:ident, $k:ident, $seed:ident, $t:ty) => {{
        let (a, b) = $get($seed);
        obs(a.to_bits() as u64);
        obs(b.to_bits() as u64);
        match $k {
            0 => {
                let mut r = 0;
                for (i, c) in [a < b, a <= b, a > b, a >= b, a == b, a != b, a.is_nan(), b.is_sign_negative()].iter().enumerate() {
                    if *c {
                        r |= 1 << i;
                        reach(i as u64);
                    }
                }
                obs(r);
                obs(a.total_cmp(&b) as i8 as u64);
                obs(a.partial_cmp(&b).map_or(9, |x| x as i8 as u64));
                obs(a.classify() as u64);
                obs((-a).to_bits() as u64);
                obs(a.abs().to_bits() as u64);
                obs(a.copysign(b).to_bits() as u64);
            }
            1 => {
                let c = a + b;
                if c == 3.5 {
                    reach(1);
                }
                if !c.is_nan() {
                    obs(c.to_bits() as u64);
                }
            }
            2 => {
                let c = a * b;
                if c == 6.25 && a > 2.6 {
                    reach(1);
                } else if c.is_infinite() && !a.is_infinite() && !b.is_infinite() {
                    reach(2);
                } else if c.is_nan() && !a.is_nan() && !b.is_nan() {
                    reach(3);
                }
                if !c.is_nan() {
                    obs(c.to_bits() as u64);
                }
            }
            3 => {
                let c = a / 3.0 - b;
                if c < -1e20 {
                    reach(1);
                } else if c == 0.0 {
                    reach(2);
                }
                if !c.is_nan() {
                    obs(c.to_bits() as u64);
                }
            }
            4 => {
                let i = a as i32;
                if i == -77 {
                    reach(1);
                } else if i == i32::MAX {
                    reach(2);
                } else if i == i32::MIN {
                    reach(3);
                } else if i == 0 && a.is_nan() {
                    reach(4);
                }
                obs(i as u64);
                obs(b as u64);
                obs(b as u8 as u64);
            }
            5 => {
                let i = a.to_bits() as i64;
                obs((i as $t).to_bits() as u64);
                obs(((i as u64) as $t).to_bits() as u64);
                obs(((i as u16) as $t).to_bits() as u64);
            }
            6 => {
                let f = a as f64;
                let g = b as f32;
                if f == 0.1f32 as f64 {
                    reach(1);
                }
                obs(f.to_bits());
                obs(g.to_bits() as u64);
            }
            _ => {
                let c = a.min(b);
                if c == a {
                    reach(1);
                }
                obs(c.to_bits() as u64);
                obs(a.max(b).to_bits() as u64);
            }
        }
    }};
}

#[inline(never)]
fn words(x: u8) -> &'static str {
    match x {
        0 => "zero", 1 => "one", 2 => "two", 3 => "three", 4 => "four", 5 => "five",
        6 => "six", 7 => "seven", 8 => "eight", 9 => "nine", _ => "many",
    }
}

#[inline(never)]
fn pairs(x: u8) -> &'static [u16] {
    match x {
        10 => &[1, 2], 11 => &[3], 12 => &[], 13 => &[4, 5, 6], 14 => &[1, 2], 15 => &[7], 16 => &[8, 9], _ => &[10],
    }
}

#[inline(never)]
fn hooks(x: u8) -> fn(u8) -> u8 {
    match x {
        0 => |x| x.wrapping_add(1), 1 => |x| x ^ 3, 2 => |x| x >> 1, 3 => |x| x.rotate_left(3), 4 => |x| !x, _ => |x| x,
    }
}

entries! {
    fn st_f32(k, seed) { floats!(f32s, k, seed, f32) }
    fn st_f64(k, seed) { floats!(f64s, k, seed, f64) }
    /// Integer operations.
    fn st_int(k, seed) {
        let s = bytes::<8>(seed);
        let a = u32::from_le_bytes([s[0], s[1], s[2], s[3]]);
        let b = u32::from_le_bytes([s[4], s[5], s[6], s[7]]);
        match k {
            0 => {
                if b != 0 {
                    obs((a / b) as u64);
                    obs((a % b) as u64);
                    obs((a as i32).wrapping_div(b as i32) as u64);
                    obs((a as i32).wrapping_rem(b as i32) as u64);
                    if (a as i32).wrapping_rem(b as i32) == -5 { reach(1); }
                }
            }
            1 => {
                obs(a.leading_zeros() as u64);
                obs(b.trailing_zeros() as u64);
                obs(a.count_ones() as u64);
                obs(a.swap_bytes() as u64);
                obs(a.reverse_bits() as u64);
                obs(a.rotate_left(b) as u64);
                obs(a.saturating_sub(b) as u64);
                obs(a.saturating_add(b) as u64);
                obs(a.checked_mul(b & 15).map_or(7, |x| x as u64));
                obs((a as i32).checked_add(b as i32).map_or(7, |x| x as u64));
                obs((a as i32).unsigned_abs() as u64);
                obs(a.abs_diff(b) as u64);
                if a.checked_mul(b & 15) == Some(35) { reach(1); }
            }
            2 => {
                let x = ((a as u128) << 40) | b as u128;
                let y = x.wrapping_mul(0x1_0000_0001_0000_0003);
                obs(y as u64);
                obs((y >> 64) as u64);
                obs((x >> (b & 127)) as u64);
                if y >> 100 == 5 { reach(1); }
            }
            _ => {
                obs(a.checked_shl(b & 63).map_or(1, |x| x as u64));
                obs(((a as i32) >> (b & 31)) as u64);
                obs((a as i16 as i64) as u64);
                obs(a.max(b) as u64);
                obs((a as i32).clamp(-5, 1000) as u64);
                obs(a.cmp(&b) as i8 as u64);
                if (a as i32).clamp(-5, 1000) == 77 { reach(1); }
            }
        }
    }
    /// Standard collections, strings, sorting and formatting.
    fn st_std(k, seed) {
        let s = &bytes::<4>(seed);
        match k {
            0 => {
                let mut v: Vec<u8> = s.to_vec();
                v.sort();
                for x in &v { obs(*x as u64); }
                v.dedup();
                obs(v.len() as u64);
                if v.len() == 2 { reach(1); }
            }
            1 => {
                let mut m = std::collections::BTreeMap::new();
                for (i, x) in s.iter().enumerate() { *m.entry(*x).or_insert(0) += i + 1; }
                obs(m.len() as u64);
                for (a, b) in &m { obs(*a as u64); obs(*b as u64); }
                if m.len() == 3 { reach(1); }
            }
            2 => {
                match std::str::from_utf8(s) {
                    Ok(t) => {
                        reach(1);
                        obs(t.chars().count() as u64);
                        for c in t.chars() { obs(c as u64); }
                        obs(t.to_uppercase().len() as u64 & 0);
                    }
                    Err(e) => obs(e.valid_up_to() as u64),
                }
            }
            5 => {
                let mut h = std::collections::HashSet::new();
                let dup = !h.insert(&s[..2]) | !h.insert(&s[2..]);
                obs(dup as u64);
                if dup { reach(1); }
            }
            6 => {
                let mut h = std::collections::HashMap::new();
                for (i, x) in s.iter().enumerate() { *h.entry(x.to_string()).or_insert(0) += i; }
                obs(h.len() as u64);
                if h.len() == 2 { reach(1); }
            }
            7 => {
                let t = words(s[0]);
                obs(t.len() as u64);
                obs(t.as_bytes()[0] as u64);
                if t == "eight" { reach(1); }
                let p = pairs(s[1]);
                obs(p.len() as u64);
                for x in p { obs(*x as u64); }
                obs(hooks(s[2])(s[3]) as u64);
            }
            3 => {
                let t = format!("{:?} {:x} {}", s[0], s[1], s[2] as i8);
                obs(t.len() as u64);
                if t.len() == 10 { reach(1); }
                obs(t.parse::<u8>().is_ok() as u64);
                obs(t.split(' ').nth(2).and_then(|x| x.parse::<i8>().ok()) .map_or(1000, |x| x as u64));
            }
            _ => {
                let mut q = std::collections::VecDeque::new();
                for x in s { if x & 1 == 1 { q.push_front(*x) } else { q.push_back(*x) } }
                q.rotate_left(1);
                for x in &q { obs(*x as u64); }
                let w: Vec<u16> = q.iter().map(|x| *x as u16 * 3).filter(|x| *x > 100).collect();
                obs(w.iter().map(|x| *x as u64).sum());
                obs(s.windows(2).any(|w| w[0] == w[1]) as u64);
                if w.len() == 1 { reach(1); }
            }
        }
    }
}
