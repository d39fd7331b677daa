//! Interface to the symbolic executor (or to the native replay program).

extern "C" {
    fn vp_sym(buf: *mut u8, n: usize);
    fn vp_byte() -> u8;
    fn vp_assume(c: bool);
    fn vp_fail(id: u64);
    fn vp_obs(x: u64);
    fn vp_reach(id: u64);
    fn vp_limit(n: u64);
}

/// Fills a buffer with symbolic bytes.
pub fn sym(buf: &mut [u8]) {
    unsafe { vp_sym(buf.as_mut_ptr(), buf.len()) }
}

/// One symbolic byte.
pub fn byte() -> u8 {
    unsafe { vp_byte() }
}

pub fn assume(c: bool) {
    unsafe { vp_assume(c) }
}

/// The assertion: the solver looks for inputs with `!c`.
pub fn check(id: u64, c: bool) {
    if !c {
        unsafe { vp_fail(id) }
    }
}

pub fn fail(id: u64) {
    unsafe { vp_fail(id) }
}

/// Records an observation, compared with the native run.
pub fn obs(x: u64) {
    unsafe { vp_obs(x) }
}

/// Records that a point of interest was reached (vacuity witness).
pub fn reach(id: u64) {
    unsafe { vp_reach(id) }
}

/// From here on at most `n` more live heap bytes are allowed.
pub fn limit(n: u64) {
    unsafe { vp_limit(n) }
}

/// The reference model ran out of its fixed capacity: an error of the harness.
pub const CAPACITY: u64 = 99;

/// Byte stream handed to the parser: counts what is read.
pub struct Cur<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub ended: bool,
    pub after: bool,
}

impl<'a> Cur<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Cur { b, pos: 0, ended: false, after: false }
    }
}

impl<'a> Iterator for Cur<'a> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        if self.pos < self.b.len() {
            self.pos += 1;
            Some(self.b[self.pos - 1])
        } else {
            if self.ended {
                self.after = true;
            }
            self.ended = true;
            None
        }
    }
}

/// Buffer under construction, holding concrete and symbolic bytes.
pub struct Buf {
    pub b: [u8; 1024],
    pub n: usize,
}

impl Buf {
    pub fn new() -> Self {
        Buf { b: [0; 1024], n: 0 }
    }
    /// Standard preamble.
    pub fn module() -> Self {
        let mut b = Self::new();
        b.put(&[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]);
        b
    }
    pub fn put(&mut self, s: &[u8]) -> &mut Self {
        self.b[self.n..self.n + s.len()].copy_from_slice(s);
        self.n += s.len();
        self
    }
    pub fn u(&mut self, x: u8) -> &mut Self {
        self.b[self.n] = x;
        self.n += 1;
        self
    }
    /// Appends `n` symbolic bytes.
    pub fn sym(&mut self, n: usize) -> &mut Self {
        sym(&mut self.b[self.n..self.n + n]);
        self.n += n;
        self
    }
    /// Appends a section with the given content.
    pub fn sec(&mut self, id: u8, s: &[u8]) -> &mut Self {
        self.u(id);
        self.leb(s.len() as u32);
        self.put(s)
    }
    pub fn leb(&mut self, mut x: u32) -> &mut Self {
        while x >= 0x80 {
            self.u((x as u8 & 0x7f) | 0x80);
            x >>= 7;
        }
        self.u(x as u8)
    }
    /// Opens a section or body whose size is filled in by `close` (fixed two-byte size).
    pub fn open(&mut self, id: Option<u8>) -> usize {
        if let Some(i) = id {
            self.u(i);
        }
        self.n += 2;
        self.n
    }
    pub fn close(&mut self, at: usize) -> &mut Self {
        let len = self.n - at;
        self.b[at - 2] = (len as u8 & 0x7f) | 0x80;
        self.b[at - 1] = (len >> 7) as u8;
        self
    }
    pub fn s(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

/// One of the given values, chosen by a symbolic byte.
pub fn pick(t: &[u8]) -> u8 {
    let k = byte();
    assume((k as usize) < t.len());
    t[k as usize]
}

/// A buffer for long inputs.
pub struct Long(pub Vec<u8>);

impl Long {
    pub fn new() -> Self {
        Long(Vec::with_capacity(1024))
    }
    pub fn module() -> Self {
        let mut b = Self::new();
        b.put(&[0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]);
        b
    }
    pub fn put(&mut self, s: &[u8]) -> &mut Self {
        self.0.extend_from_slice(s);
        self
    }
    pub fn u(&mut self, x: u8) -> &mut Self {
        self.0.push(x);
        self
    }
    pub fn leb(&mut self, mut x: u64) -> &mut Self {
        while x >= 0x80 {
            self.u((x as u8 & 0x7f) | 0x80);
            x >>= 7;
        }
        self.u(x as u8)
    }
    /// Any number of three bytes; returns it.
    pub fn num(&mut self) -> u64 {
        let (x, y, z) = (byte(), byte(), byte());
        assume((x >= 0x80) & (y >= 0x80) & (z < 0x80));
        self.u(x).u(y).u(z);
        (x & 0x7f) as u64 | ((y & 0x7f) as u64) << 7 | (z as u64) << 14
    }
    pub fn sec(&mut self, id: u8, s: &Long) -> &mut Self {
        self.u(id).leb(s.0.len() as u64).put(&s.0)
    }
    pub fn s(&self) -> &[u8] {
        &self.0
    }
}
