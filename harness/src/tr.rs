//! Flat description of a decoded item, compared event by event.

use crate::rt;

pub const CAP: usize = 1200;

pub struct Tr {
    pub e: [u64; CAP],
    pub n: usize,
}

impl Tr {
    pub fn new() -> Self {
        Tr { e: [0; CAP], n: 0 }
    }
    #[inline(never)]
    pub fn p(&mut self, x: u64) {
        if self.n >= CAP {
            rt::fail(rt::CAPACITY);
            return;
        }
        self.e[self.n] = x;
        self.n += 1;
    }
    pub fn same(&self, o: &Tr) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut ok = true;
        for i in 0..self.n {
            ok &= self.e[i] == o.e[i];
        }
        ok
    }
    pub fn observe(&self) {
        rt::obs(self.n as u64);
        for i in 0..self.n {
            rt::obs(self.e[i]);
        }
    }
}
