//! Byte-addressed memory: objects with concrete, undefined and symbolic bytes.
use crate::expr::*;
use crate::ir::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const R_HEAP: u64 = 1;
pub const R_STACK: u64 = 2;

/// A value held in a register.
#[derive(Clone)]
pub enum V {
    C(u64),
    S(E),
    A(Arc<Vec<V>>),
    U,
}

pub fn undef(w: u32) -> E {
    let v = var(UNDEF_VAR);
    let mut e = v.clone();
    while e.w < w {
        e = concat(&v, &e);
    }
    extract(&e, 0, w)
}
pub fn mk(e: E) -> V {
    match e.as_const() {
        Some(k) if e.w <= 64 => V::C(k as u64),
        _ => V::S(e),
    }
}
impl V {
    pub fn e(&self, w: u32) -> E {
        match self {
            V::C(k) => konst(*k as u128, w),
            V::S(e) => {
                debug_assert_eq!(e.w, w);
                e.clone()
            }
            V::U => undef(w),
            V::A(_) => panic!("aggregate used as scalar"),
        }
    }
}

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// 0 concrete, 1 undefined, 2 symbolic
    pub st: Vec<u8>,
    pub sym: BTreeMap<u32, E>,
    pub ro: bool,
}

impl Obj {
    pub fn new(size: usize, st: u8) -> Obj {
        Obj { data: vec![0; size], st: vec![st; size], sym: BTreeMap::new(), ro: false }
    }
    pub fn len(&self) -> u64 {
        self.data.len() as u64
    }
    pub fn byte(&self, o: usize) -> E {
        match self.st[o] {
            0 => konst(self.data[o] as u128, 8),
            1 => var(UNDEF_VAR),
            _ => self.sym[&(o as u32)].clone(),
        }
    }
    pub fn set_byte(&mut self, o: usize, e: &E) {
        if self.st[o] == 2 {
            self.sym.remove(&(o as u32));
        }
        if let Some(k) = e.as_const() {
            self.data[o] = k as u8;
            self.st[o] = 0;
        } else if e.op == Op::Var && e.c == UNDEF_VAR as u128 {
            self.st[o] = 1;
        } else {
            self.st[o] = 2;
            self.sym.insert(o as u32, e.clone());
        }
    }
    fn clear(&mut self, o: usize, n: usize) {
        if !self.sym.is_empty() {
            for i in o..o + n {
                if self.st[i] == 2 {
                    self.sym.remove(&(i as u32));
                }
            }
        }
    }
    pub fn read_int(&self, o: usize, n: usize, w: u32) -> V {
        let st = &self.st[o..o + n];
        if st.iter().all(|x| *x == 0) {
            if w <= 64 {
                let mut k = 0u64;
                for i in (0..n).rev() {
                    k = (k << 8) | self.data[o + i] as u64;
                }
                return V::C(k & mask(w) as u64);
            }
        } else if st.iter().all(|x| *x == 1) {
            return V::U;
        }
        let mut e = self.byte(o + n - 1);
        for i in (0..n - 1).rev() {
            e = concat(&e, &self.byte(o + i));
        }
        mk(extract(&e, 0, w))
    }
    pub fn write_int(&mut self, o: usize, n: usize, v: &V, w: u32) {
        match v {
            V::C(k) => {
                self.clear(o, n);
                for i in 0..n {
                    self.data[o + i] = if i < 8 { (k >> (8 * i)) as u8 } else { 0 };
                    self.st[o + i] = 0;
                }
            }
            V::U => {
                self.clear(o, n);
                for i in 0..n {
                    self.st[o + i] = 1;
                }
            }
            V::S(e) => {
                let _ = w;
                let e = zext(e, n as u32 * 8);
                for i in 0..n {
                    self.set_byte(o + i, &extract(&e, 8 * i as u32, 8));
                }
            }
            V::A(_) => panic!("aggregate"),
        }
    }
    pub fn read(&self, o: usize, t: &Ty) -> V {
        match t {
            Ty::Struct(..) | Ty::Array(..) => {
                let mut v = Vec::with_capacity(t.nfields());
                for i in 0..t.nfields() {
                    let (fo, ft) = t.field(i);
                    v.push(self.read(o + fo as usize, &ft));
                }
                V::A(Arc::new(v))
            }
            Ty::Vector(n, et) => {
                let ew = et.bits();
                if ew % 8 == 0 {
                    let b = (ew / 8) as usize;
                    V::A(Arc::new((0..*n as usize).map(|i| self.read_int(o + i * b, b, ew)).collect()))
                } else {
                    let tot = t.bits();
                    let x = self.read_int(o, t.size() as usize, tot).e(tot);
                    V::A(Arc::new((0..*n as u32).map(|i| mk(extract(&x, i * ew, ew))).collect()))
                }
            }
            _ => self.read_int(o, t.store_size() as usize, t.bits()),
        }
    }
    pub fn write(&mut self, o: usize, t: &Ty, v: &V) {
        match t {
            Ty::Struct(..) | Ty::Array(..) => {
                for i in 0..t.nfields() {
                    let (fo, ft) = t.field(i);
                    match v {
                        V::A(x) => self.write(o + fo as usize, &ft, &x[i]),
                        _ => self.write(o + fo as usize, &ft, &V::U),
                    }
                }
            }
            Ty::Vector(n, et) => {
                let ew = et.bits();
                for i in 0..*n as usize {
                    let x = match v {
                        V::A(x) => x[i].clone(),
                        _ => V::U,
                    };
                    if ew % 8 != 0 {
                        panic!("store of bit vector");
                    }
                    let b = (ew / 8) as usize;
                    self.write_int(o + i * b, b, &x, ew);
                }
            }
            _ => self.write_int(o, t.store_size() as usize, v, t.bits()),
        }
    }
}

const CH: usize = 32;
type Chunk = Arc<Vec<Option<Arc<Obj>>>>;

#[derive(Clone, Default)]
pub struct Mem {
    heap: Vec<Chunk>,
    nheap: u32,
    pub stack: Vec<Arc<Obj>>,
    pub globals: HashMap<u32, Arc<Obj>>,
    pub live: u64,
    pub peak: u64,
    pub total: u64,
}

#[derive(Debug, Clone)]
pub enum Fault {
    Oob(u64),
    Freed(u64),
    Invalid(u64),
    ReadOnly(u64),
}

pub fn split(a: u64) -> (u64, u32, u64) {
    (a >> 60, ((a >> 32) & 0xfff_ffff) as u32, a & 0xffff_ffff)
}

impl Mem {
    pub fn alloc(&mut self, size: u64, zero: bool) -> u64 {
        let id = self.nheap;
        self.nheap += 1;
        let (c, i) = (id as usize / CH, id as usize % CH);
        if c >= self.heap.len() {
            self.heap.push(Arc::new(Vec::with_capacity(CH)));
        }
        let ch = Arc::make_mut(&mut self.heap[c]);
        debug_assert_eq!(ch.len(), i);
        ch.push(Some(Arc::new(Obj::new(size as usize, if zero { 0 } else { 1 }))));
        self.live += size;
        self.total += size;
        self.peak = self.peak.max(self.live);
        mkaddr(R_HEAP, id as u64 + 1)
    }
    pub fn free(&mut self, a: u64) -> Result<(), Fault> {
        let (r, id, off) = split(a);
        if r != R_HEAP || off != 0 || id == 0 || id > self.nheap {
            return Err(Fault::Invalid(a));
        }
        let k = id as usize - 1;
        let ch = Arc::make_mut(&mut self.heap[k / CH]);
        match ch[k % CH].take() {
            Some(o) => {
                self.live -= o.len();
                Ok(())
            }
            None => Err(Fault::Freed(a)),
        }
    }
    pub fn push_stack(&mut self, size: u64) -> u64 {
        self.stack.push(Arc::new(Obj::new(size as usize, 1)));
        mkaddr(R_STACK, self.stack.len() as u64)
    }
    pub fn get<'a>(&'a self, m: &'a Globals, a: u64) -> Result<&'a Arc<Obj>, Fault> {
        let (r, id, _) = split(a);
        if id == 0 {
            return Err(Fault::Invalid(a));
        }
        let k = id as usize - 1;
        match r {
            R_HEAP => {
                if id > self.nheap {
                    return Err(Fault::Invalid(a));
                }
                self.heap[k / CH][k % CH].as_ref().ok_or(Fault::Freed(a))
            }
            R_STACK => self.stack.get(k).ok_or(Fault::Invalid(a)),
            REG_GLOBAL => match self.globals.get(&id) {
                Some(o) => Ok(o),
                None => m.get(k).ok_or(Fault::Invalid(a)),
            },
            _ => Err(Fault::Invalid(a)),
        }
    }
    pub fn get_mut<'a>(&'a mut self, m: &Globals, a: u64) -> Result<&'a mut Obj, Fault> {
        let (r, id, _) = split(a);
        if id == 0 {
            return Err(Fault::Invalid(a));
        }
        let k = id as usize - 1;
        match r {
            R_HEAP => {
                if id > self.nheap {
                    return Err(Fault::Invalid(a));
                }
                let ch = Arc::make_mut(&mut self.heap[k / CH]);
                ch[k % CH].as_mut().map(Arc::make_mut).ok_or(Fault::Freed(a))
            }
            R_STACK => self.stack.get_mut(k).map(Arc::make_mut).ok_or(Fault::Invalid(a)),
            REG_GLOBAL => {
                if !self.globals.contains_key(&id) {
                    let o = m.get(k).ok_or(Fault::Invalid(a))?;
                    if o.ro {
                        return Err(Fault::ReadOnly(a));
                    }
                    self.globals.insert(id, o.clone());
                }
                Ok(Arc::make_mut(self.globals.get_mut(&id).unwrap()))
            }
            _ => Err(Fault::Invalid(a)),
        }
    }
    pub fn check(&self, m: &Globals, a: u64, n: u64) -> Result<(), Fault> {
        let o = self.get(m, a)?;
        let off = a & 0xffff_ffff;
        if off + n > o.len() {
            return Err(Fault::Oob(a));
        }
        Ok(())
    }
}

/// Initial contents of the module's global variables.
pub struct Globals(Vec<std::sync::OnceLock<Arc<Obj>>>, Arc<Module>);

impl Globals {
    pub fn new(m: Arc<Module>) -> Globals {
        Globals((0..m.globals.len()).map(|_| Default::default()).collect(), m)
    }
    pub fn get(&self, k: usize) -> Option<&Arc<Obj>> {
        let g = self.1.globals.get(k)?;
        Some(self.0[k].get_or_init(|| {
            let mut o = Obj::new(g.ty.size() as usize, 1);
            if let Some(i) = &g.init {
                o.write(0, &g.ty, &kval(i));
            }
            o.ro = g.constant;
            Arc::new(o)
        }))
    }
}

pub fn kval(k: &K) -> V {
    match k {
        K::I(v) => {
            if *v >> 64 == 0 {
                V::C(*v as u64)
            } else {
                V::S(konst(*v, 128))
            }
        }
        K::U | K::D(_) => V::U,
        K::A(x) => V::A(Arc::new(x.iter().map(kval).collect())),
    }
}
