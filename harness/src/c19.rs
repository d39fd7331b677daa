//! The command-line tool, run as a program: arguments, files, exit status, output.

use crate::rt::*;
use crate::spec::Mod;
use whasm::binary::WasmBinary;
use whasm::structure::module::Module;

extern "C" {
    fn vp_init_args(argc: i32, argv: *const *const u8, envp: *const *const u8);
    fn vp_file(name: *const u8, nlen: usize, data: *const u8, len: usize, dir: u32);
    fn vp_run(f: extern "C" fn() -> u64) -> u64;
    fn vp_out(fd: u32, buf: *mut u8, cap: usize) -> usize;
}

const CAP: usize = 1 << 16;

pub struct Ran {
    status: u64,
    out: Vec<u8>,
    err: usize,
}

fn file(name: &[u8], data: &[u8]) {
    unsafe { vp_file(name.as_ptr(), name.len(), data.as_ptr(), data.len(), 0) }
}
fn dir(name: &[u8]) {
    unsafe { vp_file(name.as_ptr(), name.len(), name.as_ptr(), 0, 1) }
}

/// Runs the tool with the given arguments (its own name comes first).
fn tool(args: &[&[u8]]) -> Ran {
    let mut text: Vec<Vec<u8>> = vec![b"tool\0".to_vec()];
    for a in args {
        let mut t = a.to_vec();
        t.push(0);
        text.push(t);
    }
    let mut v: Vec<*const u8> = text.iter().map(|t| t.as_ptr()).collect();
    v.push(std::ptr::null());
    unsafe {
        vp_init_args(v.len() as i32 - 1, v.as_ptr(), std::ptr::null());
        let status = vp_run(vpcli::vp_main);
        let mut out = vec![0; CAP];
        let n = vp_out(1, out.as_mut_ptr(), CAP);
        let mut few = [0; 4];
        let err = vp_out(2, few.as_mut_ptr(), 4);
        check(CAPACITY, n < CAP);
        out.truncate(n);
        Ran { status, out, err }
    }
}

fn accepts(b: &[u8]) -> bool {
    let mut m = Mod::new();
    m.module(b).is_some() & m.ok
}

/// What `-p` adds to the output of an accepted file.
fn dump(b: &[u8]) -> Vec<u8> {
    match b.iter().copied().parse::<Module>() {
        Ok(m) => format!("{:#?}\n", m).into_bytes(),
        Err(_) => vec![],
    }
}

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

/// The verdict expected, `want`, against the run.
fn judge(r: &Ran, want: bool) {
    if want {
        reach(1);
        check(1, r.status == 0);
    } else {
        reach(2);
        check(2, r.status != 0);
        check(3, r.out.len() + r.err > 0);
    }
    obs((r.status == 0) as u64);
    obs(r.out.len() as u64);
}

const GOOD: &[u8] = &[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
/// Decodes but does not validate: a start function that does not exist.
const INVALID: &[u8] = &[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0, 8, 1, 0];
const BROKEN: &[u8] = &[0, 0x61, 0x73, 0x6d, 1, 0, 0];

/// One argument of `n` symbolic characters.
fn arg(n: usize, b: &mut [u8; 8]) -> &[u8] {
    sym(&mut b[..n]);
    let mut ok = true;
    for i in 0..n {
        ok &= (b[i] != 0) & (b[i] < 0x80) & (b[i] != b'/');
    }
    // "." and ".." are directories of the real file system
    if n == 1 {
        ok &= b[0] != b'.';
    } else if n == 2 {
        ok &= (b[0] != b'.') | (b[1] != b'.');
    }
    assume(ok);
    &b[..n]
}

/// Runs with and without the print option on a file of the given content.
fn contents(b: &[u8]) {
    file(b"m", b);
    let want = accepts(b);
    let r = tool(&[b"m"]);
    judge(&r, want);
    let p = tool(&[b"-p", b"m"]);
    judge(&p, want);
    if want {
        let mut w = r.out;
        w.extend_from_slice(&dump(b));
        check(5, same(&p.out, &w));
    } else {
        check(6, same(&p.out, &r.out));
    }
}

entries! {
    /// `count` arguments of symbolic characters; lengths are the digits of `lens`.
    fn c19_args(count, lens) {
        for (n, c) in [(&b"m"[..], GOOD), (b"n", INVALID), (b"o", BROKEN), (b"ab", GOOD), (b"ac", INVALID), (b"-p", INVALID), (b"--print", INVALID), (b"--prinz", GOOD), (b"abc", GOOD), (b"longer", GOOD), (b"abcdefg", BROKEN), (b"abcdefgh", GOOD)] {
            file(n, c);
        }
        dir(b"d");
        let mut store = [[0u8; 8]; 4];
        let mut rest = lens as usize;
        let mut args: [&[u8]; 4] = [&[]; 4];
        for (i, s) in store.iter_mut().enumerate() {
            if (i as u64) < count {
                args[i] = arg(rest % 10, s);
                rest /= 10;
            }
        }
        let args = &args[..count as usize];
        let (mut print, mut name): (bool, &[u8]) = (false, &[]);
        for a in args {
            if same(a, b"-p") || same(a, b"--print") {
                print = true;
            } else {
                name = a;
            }
        }
        let want = same(name, b"m") || same(name, b"ab") || same(name, b"abc") || same(name, b"--prinz") || same(name, b"longer") || same(name, b"abcdefgh");
        let r = tool(args);
        judge(&r, want);
        if want {
            let plain = tool(&[b"m"]);
            let mut w = plain.out;
            if print {
                reach(3);
                w.extend_from_slice(&dump(GOOD));
            }
            check(4, same(&r.out, &w));
        } else if print & !name.is_empty() {
            reach(4);
            let plain = tool(&[name]);
            check(4, same(&r.out, &plain.out));
        }
    }
    /// The same with characters outside ASCII.
    fn c19_wide(n) {
        let mut b = [0u8; 8];
        let n = n as usize;
        sym(&mut b[..n]);
        let mut ok = true;
        for i in 0..n {
            ok &= (b[i] != 0) & (b[i] != b'/') & (b[i] != b'.');
        }
        assume(ok);
        assume(crate::spec::utf8(&b[..n]));
        let name = &b[..n];
        let good = byte() & 1 == 1;
        if good { file(name, GOOD) } else { file(name, INVALID) };
        let opt = same(name, b"-p");
        judge(&tool(&[name]), good & !opt);
        judge(&tool(&[b"x", name]), good & !opt);
    }
    /// Free file contents.
    fn c19_free(n) {
        let mut b = Buf::new();
        b.sym(n as usize);
        contents(b.s());
    }
    /// Free contents after the preamble.
    fn c19_module(n) {
        let mut b = Buf::module();
        b.sym(n as usize);
        contents(b.s());
    }
    /// A function body of `n` free bytes.
    fn c19_body(n) {
        let mut b = Buf::module();
        b.sec(1, &[1, 0x60, 0, 0]).sec(3, &[1, 0]);
        let n = n as usize;
        b.put(&[10, n as u8 + 4, 1, n as u8 + 2, 0]).sym(n).u(0x0b);
        contents(b.s());
    }
    /// A long file: what follows the first `pad` bytes counts.
    fn c19_long(pad) {
        let mut v = GOOD.to_vec();
        let n = pad as usize + 1;
        v.extend_from_slice(&[0, 0x80 | (n & 0x7f) as u8, 0x80 | (n >> 7 & 0x7f) as u8, (n >> 14) as u8, 0]);
        v.resize(v.len() + pad as usize, 0x61);
        let k = v.len();
        let mut t = [0u8; 3];
        sym(&mut t);
        v.extend_from_slice(&t);
        // the padding is a custom section: the verdict is that of the rest
        let mut rest = GOOD.to_vec();
        rest.extend_from_slice(&v[k..]);
        let want = accepts(&rest);
        file(b"m", &v);
        judge(&tool(&[b"m"]), want);
    }
    /// Files that cannot be opened or read, and no arguments at all.
    fn c19_none() {
        let opt: &[u8] = if byte() & 1 == 1 { b"-p" } else { b"--print" };
        judge(&tool(&[]), false);
        judge(&tool(&[opt]), false);
        judge(&tool(&[b"m"]), false);
        dir(b"d");
        judge(&tool(&[b"d"]), false);
        judge(&tool(&[opt, b"d"]), false);
        file(b"e", &[]);
        judge(&tool(&[b"e"]), false);
        file(b"m", GOOD);
        judge(&tool(&[b"m"]), true);
        judge(&tool(&[opt, opt, b"d", b"m"]), true);
        judge(&tool(&[b"m", opt, b"d"]), false);
        judge(&tool(&[b"m", b""]), false);
        judge(&tool(&[b"", b"m"]), true);
        judge(&tool(&[b"m", b"-"]), false);
        judge(&tool(&[b"m", b"--"]), false);
        judge(&tool(&[b"--", b"m"]), true);
    }
}
