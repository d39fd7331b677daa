//! Floating-point instructions over the bit patterns of their operands.
//!
//! Comparisons, sign changes and classifications are plain bit-vector terms.
//! Arithmetic and conversions become `Op::F` nodes; their value is never a
//! NaN other than the default one, the payload rules are spelled out around them.
use crate::expr::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
pub enum Fo {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Sqrt,
    Cvt,   // between formats
    FromS, // signed integer to float
    FromU,
    ToS, // float to signed integer, in range
    ToU,
    Floor,
    Ceil,
    Trunc,
    Even,
    Away,
}
const ALL: [Fo; 16] = [
    Fo::Add,
    Fo::Sub,
    Fo::Mul,
    Fo::Div,
    Fo::Rem,
    Fo::Sqrt,
    Fo::Cvt,
    Fo::FromS,
    Fo::FromU,
    Fo::ToS,
    Fo::ToU,
    Fo::Floor,
    Fo::Ceil,
    Fo::Trunc,
    Fo::Even,
    Fo::Away,
];
pub fn of(c: u128) -> Fo {
    ALL[c as usize]
}

pub fn nan(w: u32) -> u128 {
    if w == 32 {
        0xffc0_0000
    } else {
        0xfff8_0000_0000_0000
    }
}
fn quiet(w: u32) -> u128 {
    if w == 32 {
        1 << 22
    } else {
        1 << 51
    }
}
fn inf(w: u32) -> u128 {
    if w == 32 {
        0x7f80_0000
    } else {
        0x7ff0_0000_0000_0000
    }
}
fn abs_mask(w: u32) -> u128 {
    mask(w) >> 1
}

/// The value of a node, its operands being `aw` bits wide.
pub fn fold_f(o: Fo, w: u32, aw: u32, a: u128, b: u128) -> u128 {
    let c32 = |x: f32| if x.is_nan() { nan(32) } else { x.to_bits() as u128 };
    let c64 = |x: f64| if x.is_nan() { nan(64) } else { x.to_bits() as u128 };
    match o {
        Fo::Cvt if aw == 32 => c64(f32::from_bits(a as u32) as f64),
        Fo::Cvt => c32(f64::from_bits(a as u64) as f32),
        Fo::FromS if w == 32 => c32(sext(a, aw) as f32),
        Fo::FromS => c64(sext(a, aw) as f64),
        Fo::FromU if w == 32 => c32(a as f32),
        Fo::FromU => c64(a as f64),
        Fo::ToS if aw == 32 => (f32::from_bits(a as u32) as i128 as u128) & mask(w),
        Fo::ToS => (f64::from_bits(a as u64) as i128 as u128) & mask(w),
        Fo::ToU if aw == 32 => (f32::from_bits(a as u32) as u128) & mask(w),
        Fo::ToU => (f64::from_bits(a as u64) as u128) & mask(w),
        _ if w == 32 => {
            let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
            c32(match o {
                Fo::Add => x + y,
                Fo::Sub => x - y,
                Fo::Mul => x * y,
                Fo::Div => x / y,
                Fo::Rem => x % y,
                Fo::Sqrt => x.sqrt(),
                Fo::Floor => x.floor(),
                Fo::Ceil => x.ceil(),
                Fo::Trunc => x.trunc(),
                Fo::Even => x.round_ties_even(),
                _ => x.round(),
            })
        }
        _ => {
            let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
            c64(match o {
                Fo::Add => x + y,
                Fo::Sub => x - y,
                Fo::Mul => x * y,
                Fo::Div => x / y,
                Fo::Rem => x % y,
                Fo::Sqrt => x.sqrt(),
                Fo::Floor => x.floor(),
                Fo::Ceil => x.ceil(),
                Fo::Trunc => x.trunc(),
                Fo::Even => x.round_ties_even(),
                _ => x.round(),
            })
        }
    }
}

fn and(a: &E, b: &E) -> E {
    bin(Op::And, a, b)
}
fn or(a: &E, b: &E) -> E {
    bin(Op::Or, a, b)
}

fn magnitude(x: &E) -> E {
    and(x, &konst(abs_mask(x.w), x.w))
}
pub fn is_nan(x: &E) -> E {
    bin(Op::Ult, &konst(inf(x.w), x.w), &magnitude(x))
}
fn quieted(x: &E) -> E {
    or(x, &konst(quiet(x.w), x.w))
}

fn less(a: &E, b: &E, or_equal: bool) -> E {
    let w = a.w;
    let (sa, sb) = (extract(a, w - 1, 1), extract(b, w - 1, 1));
    let zero = bin(Op::Eq, &or(&magnitude(a), &magnitude(b)), &konst(0, w));
    let op = if or_equal { Op::Ule } else { Op::Ult };
    let pos = bin(op, a, b);
    let neg = bin(op, b, a);
    let diff = ite(&sa, &tru(), &konst(0, 1));
    let same = not(&bin(Op::Xor, &sa, &sb));
    let r = ite(&same, &ite(&sa, &neg, &pos), &diff);
    ite(&zero, &konst(or_equal as u128, 1), &r)
}
fn equal(a: &E, b: &E) -> E {
    let zero = bin(Op::Eq, &or(&magnitude(a), &magnitude(b)), &konst(0, a.w));
    or(&zero, &bin(Op::Eq, a, b))
}

pub fn compare(pred: &str, a: &E, b: &E) -> Option<E> {
    let un = or(&is_nan(a), &is_nan(b));
    let ord = |e: E| and(&not(&un), &e);
    let uno = |e: E| or(&un, &e);
    Some(match pred {
        "false" => konst(0, 1),
        "true" => tru(),
        "ord" => not(&un),
        "uno" => un,
        "oeq" => ord(equal(a, b)),
        "one" => ord(not(&equal(a, b))),
        "olt" => ord(less(a, b, false)),
        "ole" => ord(less(a, b, true)),
        "ogt" => ord(less(b, a, false)),
        "oge" => ord(less(b, a, true)),
        "ueq" => uno(equal(a, b)),
        "une" => uno(not(&equal(a, b))),
        "ult" => uno(less(a, b, false)),
        "ule" => uno(less(a, b, true)),
        "ugt" => uno(less(b, a, false)),
        "uge" => uno(less(b, a, true)),
        _ => return None,
    })
}

pub fn arith(name: &str, a: &E, b: &E) -> Option<E> {
    let o = match name {
        "fadd" => Fo::Add,
        "fsub" => Fo::Sub,
        "fmul" => Fo::Mul,
        "fdiv" => Fo::Div,
        "frem" => Fo::Rem,
        _ => return None,
    };
    if o == Fo::Rem && (a.as_const().is_none() || b.as_const().is_none()) {
        return None;
    }
    let r = fnode(o, a.w, &[a.clone(), b.clone()]);
    Some(ite(&is_nan(a), &quieted(a), &ite(&is_nan(b), &quieted(b), &r)))
}
pub fn unary(o: Fo, a: &E) -> E {
    ite(&is_nan(a), &quieted(a), &fnode(o, a.w, &[a.clone()]))
}

pub fn neg(a: &E) -> E {
    bin(Op::Xor, a, &konst(abs_mask(a.w) + 1, a.w))
}
pub fn abs(a: &E) -> E {
    magnitude(a)
}
/// The smaller (greater) operand; a NaN gives way to a number, -0 is less than +0.
pub fn extreme(a: &E, b: &E, min: bool) -> E {
    let w = a.w;
    let zero = bin(Op::Eq, &or(&magnitude(a), &magnitude(b)), &konst(0, w));
    let z = if min { or(a, b) } else { and(a, b) };
    let lt = if min { less(a, b, false) } else { less(b, a, false) };
    let r = ite(&zero, &z, &ite(&lt, a, b));
    ite(&is_nan(a), &ite(&is_nan(b), &quieted(b), b), &ite(&is_nan(b), a, &r))
}
pub fn copysign(a: &E, b: &E) -> E {
    or(&magnitude(a), &and(b, &konst(abs_mask(a.w) + 1, a.w)))
}

/// `llvm.is.fpclass`
pub fn class(a: &E, m: u128) -> E {
    let w = a.w;
    let k = |v: u128| konst(v, w);
    let mag = magnitude(a);
    let s = extract(a, w - 1, 1);
    let nan = is_nan(a);
    let q = bin(Op::Eq, &and(a, &k(quiet(w))), &k(quiet(w)));
    let is_inf = bin(Op::Eq, &mag, &k(inf(w)));
    let zero = bin(Op::Eq, &mag, &k(0));
    let low = if w == 32 { 1u128 << 23 } else { 1 << 52 };
    let sub = and(&not(&zero), &bin(Op::Ult, &mag, &k(low)));
    let normal = and(&bin(Op::Ule, &k(low), &mag), &bin(Op::Ult, &mag, &k(inf(w))));
    let p = not(&s);
    let parts = [
        and(&nan, &not(&q)),
        and(&nan, &q),
        and(&is_inf, &s),
        and(&normal, &s),
        and(&sub, &s),
        and(&zero, &s),
        and(&zero, &p),
        and(&sub, &p),
        and(&normal, &p),
        and(&is_inf, &p),
    ];
    let mut r = konst(0, 1);
    for (i, x) in parts.iter().enumerate() {
        if m >> i & 1 == 1 {
            r = or(&r, x);
        }
    }
    r
}

/// Conversions; `None` where the widths are not supported.
pub fn convert(name: &str, x: &E, w: u32) -> Option<E> {
    let aw = x.w;
    let flt = |w: u32| w == 32 || w == 64;
    Some(match name {
        "fpext" if aw == 32 && w == 64 => {
            let payload = concat(&extract(x, 0, 22), &konst(0, 29));
            let head = konst(0xfff, 12);
            let n = concat(&concat(&extract(x, 31, 1), &extract(&head, 0, 11)), &concat(&tru(), &payload));
            ite(&is_nan(x), &n, &fnode(Fo::Cvt, 64, &[x.clone()]))
        }
        "fptrunc" if aw == 64 && w == 32 => {
            let n = concat(&concat(&extract(x, 63, 1), &konst(0x1ff, 9)), &extract(x, 29, 22));
            ite(&is_nan(x), &n, &fnode(Fo::Cvt, 32, &[x.clone()]))
        }
        "sitofp" if flt(w) && aw <= 64 => fnode(Fo::FromS, w, &[x.clone()]),
        "uitofp" if flt(w) && aw <= 64 => fnode(Fo::FromU, w, &[x.clone()]),
        "fptosi" if flt(aw) && w <= 64 => {
            let lim = fnode(Fo::FromU, aw, &[konst(1u128 << (w - 1), 64)]);
            let r = fnode(Fo::ToS, w, &[x.clone()]);
            // -2^(w-1) is exact in either format
            let r = ite(&less(&lim, x, true), &konst(mask(w) >> 1, w), &r);
            let r = ite(&less(x, &neg(&lim), true), &konst(1u128 << (w - 1), w), &r);
            ite(&is_nan(x), &konst(0, w), &r)
        }
        "fptoui" if flt(aw) && w <= 64 => {
            let two = fnode(Fo::FromU, aw, &[konst(1u128 << w, 65)]);
            let r = fnode(Fo::ToU, w, &[x.clone()]);
            let r = ite(&less(&two, x, true), &konst(mask(w), w), &r);
            let r = ite(&less(x, &konst(0, aw), true), &konst(0, w), &r);
            ite(&is_nan(x), &konst(0, w), &r)
        }
        _ => return None,
    })
}
