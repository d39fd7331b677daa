//! Runs one harness entry natively on given input bytes.
//!
//! usage: replay ENTRY HEX [ARG..]
//!        replay --batch          (lines "ENTRY HEX ARG.." on standard input)
//! Prints observations; exit 0 = held, 1 = assertion failed, 77 = assumption not met,
//! 78 = allocation limit exceeded, abort = panic.

use std::alloc::{GlobalAlloc, Layout, System};
use std::io::Write;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static LIVE: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(1 << 30);

struct Count;

fn grow(n: u64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if l > LIMIT.load(Relaxed) {
        LIMIT.store(u64::MAX, Relaxed);
        let _ = std::io::stdout().flush();
        println!("ALLOC {}", n);
        let _ = std::io::stdout().flush();
        std::process::exit(78);
    }
}

unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size() as u64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        grow(n as u64);
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static A: Count = Count;

static mut INPUT: Vec<u8> = Vec::new();
static mut POS: usize = 0;

#[allow(static_mut_refs)]
fn next() -> u8 {
    unsafe {
        let x = if POS < INPUT.len() { INPUT[POS] } else { 0 };
        POS += 1;
        x
    }
}

fn quit(code: i32) -> ! {
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}

#[no_mangle]
pub extern "C" fn vp_sym(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next() }
    }
}
#[no_mangle]
pub extern "C" fn vp_byte() -> u8 {
    next()
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("ASSUME");
        quit(77);
    }
}
#[no_mangle]
pub extern "C" fn vp_fail(id: u64) {
    println!("FAIL {}", id);
    quit(1);
}
#[no_mangle]
pub extern "C" fn vp_obs(x: u64) {
    println!("OBS {:x}", x);
}
#[no_mangle]
pub extern "C" fn vp_reach(_id: u64) {}
#[no_mangle]
pub extern "C" fn vp_limit(n: u64) {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    LIMIT.store(l + n, Relaxed);
}
#[no_mangle]
pub extern "C" fn vp_is_sym() -> u32 {
    0
}

// A program run with arguments and files: the real tool in a scratch directory.
static mut ARGS: Vec<Vec<u8>> = Vec::new();
static mut FILES: Vec<(Vec<u8>, Vec<u8>, bool)> = Vec::new();
static mut OUT: [Vec<u8>; 2] = [Vec::new(), Vec::new()];

#[no_mangle]
pub unsafe extern "C" fn vp_init_args(argc: i32, argv: *const *const u8, _envp: *const *const u8) {
    ARGS = (0..argc as usize).map(|i| std::ffi::CStr::from_ptr(*argv.add(i) as *const _).to_bytes().to_vec()).collect();
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn vp_file(name: *const u8, nlen: usize, data: *const u8, len: usize, dir: u32) {
    let s = |p: *const u8, n: usize| if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() };
    FILES.push((s(name, nlen), s(data, len), dir == 1));
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn vp_run(_f: extern "C" fn() -> u64) -> u64 {
    use std::ffi::OsStr;
    use std::os::unix::ffi::OsStrExt;
    let d = std::env::temp_dir().join(format!("vp-tool-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    for (n, c, dir) in FILES.iter() {
        let p = d.join(OsStr::from_bytes(n));
        if *dir {
            let _ = std::fs::create_dir(&p);
        } else {
            std::fs::write(&p, c).unwrap();
        }
    }
    let tool = std::env::current_exe().unwrap().with_file_name("tool");
    let mut cmd = std::process::Command::new(tool);
    std::os::unix::process::CommandExt::arg0(&mut cmd, OsStr::from_bytes(&ARGS[0]));
    for a in ARGS.iter().skip(1) {
        cmd.arg(OsStr::from_bytes(a));
    }
    let r = cmd.current_dir(&d).stdin(std::process::Stdio::null()).output();
    std::fs::remove_dir_all(&d).unwrap();
    let r = r.unwrap();
    OUT = [r.stdout, r.stderr];
    r.status.code().unwrap_or(101) as u64
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn vp_out(fd: u32, buf: *mut u8, cap: usize) -> usize {
    let o = &OUT[(fd == 2) as usize];
    for i in 0..o.len().min(cap) {
        *buf.add(i) = o[i];
    }
    o.len()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: replay ENTRY HEX [ARG..]");
        std::process::exit(2);
    }
    let e = match vh::find(&args[1]) {
        Some(e) => e,
        None => {
            eprintln!("no entry {}", args[1]);
            std::process::exit(2);
        }
    };
    let h = args[2].trim_start_matches("x");
    let mut bytes = vec![];
    for i in 0..h.len() / 2 {
        bytes.push(u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap());
    }
    let mut p = [0u64; 4];
    for (i, a) in args[3..].iter().enumerate() {
        p[i] = a.parse().unwrap();
    }
    unsafe {
        INPUT = bytes;
    }
    e(p[0], p[1], p[2], p[3]);
    println!("DONE");
    quit(0);
}
