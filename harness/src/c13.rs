//! Typing of control flow.

use crate::rt::*;
use whasm::validation::ValidationEntry;
use whasm::structure::module::Module;
use whasm::binary::WasmBinary;
use crate::whole::*;

const PLAIN: u64 = 1;
const VALUE: u64 = 2;
const OPEN: u64 = 4;
const CLOSE: u64 = 8;
const JUMP: u64 = 16;
const ALL: u64 = 31;

/// A two-byte token from the given groups: unreachable, nop, return or drop (then nop); constants
/// and the two parameters; block openers with any result type; else and end (then nop); branches
/// to labels below `nl`.
fn tok(b: &mut Buf, set: u64, nl: u8) {
    let o = byte();
    let x = byte();
    let mut any = false;
    if set & PLAIN != 0 {
        any |= ((o == 0x00) | (o == 0x01) | (o == 0x0f) | (o == 0x1a)) & (x == 1);
    }
    if set & VALUE != 0 {
        any |= (((o == 0x41) | (o == 0x42)) & (x == 0)) | ((o == 0x20) & (x < 2));
    }
    if set & OPEN != 0 {
        any |= ((o == 0x02) | (o == 0x03) | (o == 0x04)) & ((x == 0x40) | ((x >= 0x7c) & (x <= 0x7f)));
    }
    if set & CLOSE != 0 {
        any |= ((o == 0x05) | (o == 0x0b)) & (x == 1);
    }
    if set & JUMP != 0 {
        any |= ((o == 0x0c) | (o == 0x0d)) & (x < nl);
    }
    assume(any);
    b.u(o).u(x);
}

fn toks(b: &mut Buf, n: u64, set: u64, nl: u8) {
    for _ in 0..n {
        tok(b, set, nl);
    }
}

/// One function with two parameters (i32 and symbolic) and `nr` symbolic results.
fn body(nr: u64, f: impl FnOnce(&mut Buf)) {
    let mut b = Buf::module();
    let s = b.open(Some(1));
    b.u(1).u(0x60).u(2).u(0x7f).u(vt()).u(nr as u8);
    for _ in 0..nr {
        b.u(vt());
    }
    b.close(s);
    b.sec(3, &[1, 0]);
    let s = b.open(Some(10));
    b.u(1);
    let e = b.open(None);
    b.u(0);
    f(&mut b);
    b.u(0x0b);
    b.close(e);
    b.close(s);
    verdict(b.s());
}

fn opener(b: &mut Buf) {
    let o = byte();
    assume((o == 0x02) | (o == 0x03) | (o == 0x04));
    b.u(o).u(bt());
}

/// Verdict on a long module.
fn long(b: &Long, want: bool) {
    let got = match Cur::new(b.s()).parse::<Module>() {
        Ok(m) => m.validate().is_ok(),
        Err(_) => false,
    };
    check(60, got == want);
    if got { reach(1); } else { reach(2); }
    obs(got as u64);
}

entries! {
    /// Any `n` bytes.
    fn c13_free(n, nr) {
        body(nr, |b| { b.sym(n as usize); })
    }
    /// `n` tokens of all groups, then `ends` end markers besides the last.
    fn c13_tokens(n, ends, nr) {
        body(nr, |b| {
            toks(b, n, ALL, ends as u8 + 3);
            for _ in 0..ends { b.u(0x0b); }
        })
    }
    /// One construct: values before, `n` tokens inside, tokens after.
    fn c13_one(before, n, after, nr) {
        body(nr, |b| {
            toks(b, before, VALUE, 0);
            opener(b);
            toks(b, n, PLAIN | VALUE | JUMP, 4);
            b.u(0x0b);
            toks(b, after, PLAIN | VALUE | JUMP, 3);
        })
    }
    /// A conditional with both arms.
    fn c13_if(n, m, after, nr) {
        body(nr, |b| {
            toks(b, 1, VALUE, 0);
            b.u(0x04).u(bt());
            toks(b, n, PLAIN | VALUE | JUMP, 4);
            b.u(0x05);
            toks(b, m, PLAIN | VALUE | JUMP, 4);
            b.u(0x0b);
            toks(b, after, PLAIN | VALUE, 3);
        })
    }
    /// Two nested constructs with `k` values each and tokens inside, between and after.
    fn c13_two(n, m, after, nr) {
        body(nr, |b| {
            b.u(0x20).u(0);
            opener(b);
            b.u(0x20).u(0);
            opener(b);
            toks(b, n, PLAIN | VALUE | JUMP, 5);
            b.u(0x0b);
            toks(b, m, PLAIN | VALUE | JUMP, 4);
            b.u(0x0b);
            toks(b, after, PLAIN | VALUE, 3);
        })
    }
    /// `d` nested constructs with symbolic result types, a branch of any kind to a label given by
    /// `w` bytes, tokens behind it.
    fn c13_deep(d, w, n, how) {
        body(1, |b| {
            for i in 0..d {
                b.u(if how == 2 { 0x03 } else { 0x02 }).u(bt());
            }
            b.u(0x20).u(1).u(0x20).u(0);
            b.u(if how == 1 { 0x0c } else { 0x0d }).num(w as usize);
            toks(b, n, PLAIN | VALUE, 0);
            for _ in 0..d { b.u(0x0b); }
        })
    }
    /// A label table of `k` entries (labels of `w` bytes) inside `d` constructs of symbolic kind
    /// and type.
    fn c13_table(d, k, w, nr) {
        body(nr, |b| {
            for _ in 0..d {
                let o = byte();
                assume((o == 0x02) | (o == 0x03));
                b.u(o).u(bt());
            }
            b.u(0x20).u(1);
            tok(b, PLAIN | VALUE, 0);
            b.u(0x0e).u(k as u8);
            for _ in 0..k + 1 {
                if w == 1 { b.u(below(d as u8 + 3)); } else { b.num(w as usize); }
            }
            tok(b, PLAIN | VALUE, 0);
            for _ in 0..d { b.u(0x0b); }
            tok(b, PLAIN | VALUE, 0);
        })
    }
    /// A label table of `k` entries inside `d` constructs: which labels agree.
    fn c13_labels(d, k, nr) {
        body(nr, |b| {
            for _ in 0..d {
                let o = byte();
                assume((o == 0x02) | (o == 0x03));
                b.u(o).u(bt());
            }
            b.u(0x20).u(1).u(0x20).u(0).u(0x0e).u(k as u8);
            for _ in 0..k + 1 { b.u(below(d as u8 + 2)); }
            for _ in 0..d { b.u(0x0b).u(0x00); }
        })
    }
    /// Return with `k` operands on the stack, in a construct or not, then tokens.
    fn c13_return(k, inside, n, nr) {
        body(nr, |b| {
            if inside != 0 { b.u(0x41).u(0); opener(b); }
            toks(b, k, VALUE, 0);
            b.u(0x0f);
            toks(b, n, PLAIN | VALUE, 0);
            if inside != 0 {
                b.u(0x0b);
                toks(b, 1, PLAIN | VALUE, 0);
            }
        })
    }
    /// Operands below a construct are out of reach inside it: `k` values, a construct of `n` tokens
    /// that use them up, tokens after.
    fn c13_below(k, n, after) {
        body(1, |b| {
            for _ in 0..k { b.u(0x20).u(1); }
            b.u(0x20).u(0);
            opener(b);
            for _ in 0..n {
                let o = byte();
                assume((o == 0x1a) | (o == 0x00) | (o == 0x1b) | (o == 0x45) | (o == 0x6a) | (o == 0x01));
                b.u(o);
            }
            b.u(0x0b);
            for _ in 0..after {
                let o = byte();
                assume((o == 0x1a) | (o == 0x00) | (o == 0x1b) | (o == 0x45) | (o == 0x6a) | (o == 0x01));
                b.u(o);
            }
        })
    }
    /// A chain of `n` constructs one after another, each with a symbolic branch inside.
    fn c13_chain(n) {
        body(1, |b| {
            for _ in 0..n {
                b.u(0x20).u(0);
                opener(b);
                b.u(0x20).u(1);
                tok(b, PLAIN | JUMP, 3);
                b.u(0x0b);
            }
            b.u(0x20).u(1);
        })
    }
    /// A tower of `d` constructs whose kinds and types follow a fixed pattern, except at `at`, where
    /// both are symbolic; inside it a branch of any kind to any label, and a value.
    fn c13_tower(d, at, w, how) {
        body(1, |b| {
            for i in 0..d {
                if i == at {
                    b.u(0x20).u(0);
                    opener(b);
                } else {
                    match i % 4 {
                        0 => b.u(0x02).u(0x40),
                        1 => b.u(0x03).u(0x7f),
                        2 => b.u(0x02).u(0x7e),
                        _ => b.u(0x20).u(0).u(0x04).u(0x40),
                    };
                }
            }
            b.u(0x20).u(1).u(0x20).u(0);
            b.u(if how & 1 == 0 { 0x0d } else { 0x0c }).num(w as usize);
            if how & 2 != 0 { tok(b, PLAIN | VALUE, 0); }
            for _ in 0..d { b.u(0x00).u(0x0b); }
            b.u(0x00);
        })
    }
    /// A branch with any label of three bytes under `n` constructs.
    fn c13_big(n, op) {
        let mut body = Long::new();
        body.u(0);
        for i in 0..n { body.u(0x02 + (i % 2) as u8).u(0x40); }
        body.put(&[0x41, 0]);
        if op == 0x0c { body.u(0x1a); }
        body.u(op as u8);
        if op == 0x0e { body.u(1).u(0); }
        let l = body.num();
        for _ in 0..n { body.u(0x0b); }
        body.u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.put(&[1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0]).sec(10, &code);
        long(&b, l <= n);
    }
    /// A construct with one instruction inside, above `n` operands; as many are dropped afterwards, one more or one less.
    fn c13_above(n, kind) {
        let x = byte();
        assume((x == 0x00) | (x == 0x01) | (x == 0x0f) | (x == 0x1a) | (x == 0x50));
        let left = n + choose(3) as u64 - 1;
        let mut body = Long::new();
        body.u(0);
        for _ in 0..n { body.u(0x42).u(0); }
        if kind == 4 { body.put(&[0x41, 0]); }
        body.u(kind as u8).u(0x40).u(x).u(0x0b);
        for _ in 0..left { body.u(0x1a); }
        body.u(0x0b);
        let mut code = Long::new();
        code.u(1).leb(body.0.len() as u64).put(body.s());
        let mut b = Long::module();
        b.put(&[1, 4, 1, 0x60, 0, 0, 3, 2, 1, 0]).sec(10, &code);
        long(&b, (left == n) & (x != 0x1a) & (x != 0x50));
    }
}
