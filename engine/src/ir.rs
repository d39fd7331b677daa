//! Parser for the textual LLVM IR that rustc emits after LTO.
use crate::expr::{mask, sext, Op};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Flt(u32),
    Struct(Arc<Vec<Ty>>, bool),
    Array(u64, Arc<Ty>),
    Vector(u64, Arc<Ty>),
    Other,
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Flt(w) => (*w as u64) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                if !packed {
                    let a = self.align();
                    o = (o + a - 1) / a * a;
                }
                o
            }
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() as u64 + 7) / 8,
        }
    }
    /// bytes actually written by a store
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => ((*w as u64) + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Flt(w) => (*w as u64) / 8,
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two(),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Flt(w) => *w,
            Ty::Vector(n, t) => *n as u32 * t.bits(),
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn is_flt(&self) -> bool {
        matches!(self, Ty::Flt(32) | Ty::Flt(64))
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Array(..) | Ty::Vector(..))
    }
    pub fn field(&self, i: usize) -> (u64, Ty) {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return (o, t.clone());
                    }
                    o += t.size();
                }
                panic!("field index")
            }
            Ty::Array(_, t) | Ty::Vector(_, t) => (i as u64 * t.size(), (**t).clone()),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// constants
#[derive(Clone, Debug, PartialEq)]
pub enum K {
    I(u128),
    U,
    /// the distance between two objects, cut to 32 bits in the program
    D(u64),
    A(Arc<Vec<K>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Opd {
    R(u32),
    K(K),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Trunc,
    Zext,
    Sext,
    Bit, // bitcast, ptrtoint and inttoptr on 64 bits
    Fp,  // any floating-point conversion
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ins {
    Bin(Op, Ty, Opd, Opd),
    FBin(String, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    Cast(CastK, String, Ty, Ty, Opd),
    Select(Ty, Opd, Ty, Opd, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Alloca(u64, u64, Opd),
    Call(Callee, Vec<(Ty, Opd)>, Ty, bool),
    Extract(Opd, Vec<usize>),
    Insert(Ty, Opd, Opd, Vec<usize>),
    Freeze(Ty, Opd),
    Rmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    ExtractElem(Ty, Opd, Opd),
    InsertElem(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, K),
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Callee {
    F(u32),
    P(Opd),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Term {
    Ret(Option<(Ty, Opd)>),
    Br(u32),
    Cond(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct Phi {
    pub res: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub ins: Vec<(u32, Ins)>,
    pub term: Term,
    pub plan: Option<Plan>,
}

/// How a switch on a symbolic value is explored: one state per group.
#[derive(Clone, Debug)]
pub struct Plan {
    pub groups: Vec<Group>,
    /// group index of the default case
    pub default: usize,
    pub default_pred: u32,
    /// case value -> (group, block from which the group's target is entered)
    pub case: HashMap<u128, (usize, u32)>,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub target: u32,
    /// entered from several blocks: the phis of `target` become tables over the switch value
    pub preds: Vec<u32>,
    pub values: Vec<u128>,
    pub is_default: bool,
}

#[derive(Debug)]
pub struct Func {
    pub name: Arc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninstr: u64,
}

pub struct FuncDecl {
    pub name: Arc<str>,
    pub body: Option<(usize, usize)>, // line range
    pub noreturn: bool,
    pub addr: u64,
    pub id: usize,
    pub parsed: OnceLock<Result<&'static Func, String>>,
    pub shape: OnceLock<Option<Shape>>,
}

/// A function without its integers, and the integers.
pub struct Shape {
    pub text: String,
    pub ints: Vec<(u32, u128)>,
}

/// Functions of one shape as one function; the integers in which they differ
/// are further parameters.
pub struct Family {
    pub f: &'static Func,
    pub holes: Vec<usize>,
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub ty: Ty,
    pub constant: bool,
    pub init: Option<K>,
}

pub struct Module {
    pub relative: HashMap<u64, u64>,
    pub families: Mutex<HashMap<Vec<u32>, Arc<Family>>>,
    pub text: String,
    pub lines: Vec<(usize, usize)>,
    pub funcs: HashMap<Arc<str>, Arc<FuncDecl>>,
    pub func_by_id: Vec<Arc<FuncDecl>>,
    pub globals: Vec<Global>,
    pub names: HashMap<String, u64>,
    pub noreturn_groups: std::collections::HashSet<String>,
}

pub const NONE: u32 = u32::MAX;
pub const REG_GLOBAL: u64 = 3;
pub const REG_FUNC: u64 = 4;
pub fn mkaddr(region: u64, id: u64) -> u64 {
    (region << 60) | (id << 32)
}

// ---------------------------------------------------------------- tokens

#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    Str(&'a str), // contents between quotes, raw
    Meta,
    P(u8),
    End,
}

struct Lex<'a> {
    toks: Vec<Tok<'a>>,
    pos: usize,
}

fn unquote(s: &str) -> String {
    // \XX escapes
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() && b[i + 1].is_ascii_hexdigit() {
            out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn unescape_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'.' | b'_' | b'$' | b'-')
}

fn lex(s: &str) -> Lex<'_> {
    let b = s.as_bytes();
    let mut toks = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let st = i + 2;
                    let mut j = st;
                    while b[j] != b'"' {
                        j += 1;
                    }
                    name = unquote(&s[st..j]);
                    i = j + 1;
                } else {
                    let st = i + 1;
                    let mut j = st;
                    while j < b.len() && idch(b[j]) {
                        j += 1;
                    }
                    name = s[st..j].to_string();
                    i = j;
                }
                toks.push(if c == b'%' { Tok::Local(name) } else { Tok::Global(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && (idch(b[j]) || b[j] == b'\\') {
                    j += 1;
                }
                i = j;
                toks.push(Tok::Meta);
            }
            b'"' => {
                let st = i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                toks.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let st = i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                toks.push(Tok::Str(&s[st..j]));
                i = j + 1;
            }
            _ if idch(c) || c == b'#' || c == b'+' => {
                let st = i;
                let mut j = i + 1;
                while j < b.len() && (idch(b[j]) || b[j] == b'+') {
                    j += 1;
                }
                toks.push(Tok::Word(&s[st..j]));
                i = j;
            }
            _ => {
                toks.push(Tok::P(c));
                i += 1;
            }
        }
    }
    Lex { toks, pos: 0 }
}

type R<T> = Result<T, String>;

impl<'a> Lex<'a> {
    fn peek(&self) -> &Tok<'a> {
        self.toks.get(self.pos).unwrap_or(&Tok::End)
    }
    fn peek_at(&self, n: usize) -> &Tok<'a> {
        self.toks.get(self.pos + n).unwrap_or(&Tok::End)
    }
    fn next(&mut self) -> Tok<'a> {
        let t = self.toks.get(self.pos).cloned().unwrap_or(Tok::End);
        self.pos += 1;
        t
    }
    fn eat(&mut self, c: u8) -> bool {
        if *self.peek() == Tok::P(c) {
            self.pos += 1;
            true
        } else {
            false
        }
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if *x == w {
                self.pos += 1;
                return true;
            }
        }
        false
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?}, got {:?} at {} in {:?}", c as char, self.peek(), self.pos, self.toks.iter().take(12).collect::<Vec<_>>()))
        }
    }
    fn word(&mut self) -> R<&'a str> {
        match self.next() {
            Tok::Word(w) => Ok(w),
            t => Err(format!("expected word, got {:?}", t)),
        }
    }
    fn skip_group(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => return,
                _ => {}
            }
        }
    }
    fn is_type_start(&self) -> bool {
        match self.peek() {
            Tok::Word(w) => {
                matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "metadata" | "label" | "x86_fp80" | "fp128")
                    || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'{') | Tok::P(b'<') | Tok::P(b'[') => true,
            _ => false,
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.is_type_start() {
                return;
            }
            match self.peek() {
                Tok::Word(w) => {
                    let w = *w;
                    // values are handled by the caller
                    if matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "trunc" | "sub" | "splat" | "add" | "xor" | "mul" | "shl" | "dso_local_equivalent" | "no_cfi")
                        || w.as_bytes()[0].is_ascii_digit()
                        || w.as_bytes()[0] == b'-'
                    {
                        return;
                    }
                    self.pos += 1;
                    if *self.peek() == Tok::P(b'(') {
                        self.skip_group();
                    } else if w == "align" || w == "dereferenceable" || w == "alignstack" {
                        self.pos += 1;
                    }
                }
                Tok::Str(_) => {
                    // "key"="value"
                    self.pos += 1;
                    if self.eat(b'=') {
                        self.pos += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => Ty::Ptr,
            Tok::Word("float") => Ty::Flt(32),
            Tok::Word("double") => Ty::Flt(64),
            Tok::Word("half") => Ty::Flt(16),
            Tok::Word("fp128") => Ty::Flt(128),
            Tok::Word("metadata") | Tok::Word("label") => Ty::Other,
            Tok::Word(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
            Tok::P(b'{') => {
                let mut f = vec![];
                if !self.eat(b'}') {
                    loop {
                        f.push(self.ty()?);
                        if !self.eat(b',') {
                            break;
                        }
                    }
                    self.expect(b'}')?;
                }
                Ty::Struct(Arc::new(f), false)
            }
            Tok::P(b'[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "array len")?;
                self.word()?; // x
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n, Arc::new(t))
            }
            Tok::P(b'<') => {
                if *self.peek() == Tok::P(b'{') {
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    match t {
                        Ty::Struct(f, _) => Ty::Struct(f, true),
                        _ => return Err("packed".into()),
                    }
                } else {
                    let n: u64 = self.word()?.parse().map_err(|_| "vec len")?;
                    self.word()?;
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vector(n, Arc::new(t))
                }
            }
            t => return Err(format!("type expected, got {:?}", t)),
        };
        Ok(t)
    }
}

/// Bits of a floating-point constant.
fn float_const(lx: &mut Lex, w: &str, fw: u32) -> Result<u128, String> {
    let err = || format!("float {}", w);
    let hex = |h: &str| u64::from_str_radix(h, 16).map_err(|_| err());
    let (exp, quiet) = match fw {
        32 => (0x7f80_0000u64, 1u64 << 22),
        64 => (0x7ff0_0000_0000_0000, 1 << 51),
        _ => return Err(err()),
    };
    let sign = if w.starts_with('-') { 1u64 << (fw - 1) } else { 0 };
    let body = w.trim_start_matches(&['+', '-'][..]);
    let bits = if let Some(h) = body.strip_prefix("f0x") {
        hex(h)?
    } else if let Some(h) = body.strip_prefix("0x") {
        // the bits of the value as a double
        let b = hex(h)?;
        let x = f64::from_bits(b);
        if fw == 64 {
            b
        } else if x.is_nan() {
            (b >> 63 << 31) | exp | (b >> 29 & 0x7f_ffff)
        } else {
            (x as f32).to_bits() as u64
        }
    } else if body == "qnan" {
        sign | exp | quiet
    } else if body == "nan" || body == "snan" {
        lx.expect(b'(')?;
        let h = lx.word()?;
        let p = hex(h.strip_prefix("0x").ok_or_else(err)?)?;
        lx.expect(b')')?;
        sign | exp | p | if body == "nan" { quiet } else { 0 }
    } else if fw == 32 {
        w.parse::<f32>().map_err(|_| err())?.to_bits() as u64
    } else {
        w.parse::<f64>().map_err(|_| err())?.to_bits()
    };
    Ok(bits as u128)
}

fn parse_int(w: &str) -> Option<u128> {
    if let Some(x) = w.strip_prefix('-') {
        x.parse::<u128>().ok().map(|v| 0u128.wrapping_sub(v))
    } else {
        w.parse::<u128>().ok()
    }
}

pub fn zero_of(t: &Ty) -> K {
    if t.is_agg() {
        K::A(Arc::new((0..t.nfields()).map(|i| zero_of(&t.field(i).1)).collect()))
    } else {
        K::I(0)
    }
}

impl Module {
    pub fn load(text: String) -> R<Module> {
        let mut m = Module {
            relative: HashMap::new(),
            families: Default::default(),
            text: String::new(),
            lines: vec![],
            funcs: HashMap::new(),
            func_by_id: vec![],
            globals: vec![],
            names: HashMap::new(),
            noreturn_groups: Default::default(),
        };
        let mut st = 0;
        let bytes = text.as_bytes();
        for i in 0..bytes.len() {
            if bytes[i] == b'\n' {
                m.lines.push((st, i));
                st = i + 1;
            }
        }
        if st < bytes.len() {
            m.lines.push((st, bytes.len()));
        }
        for (a, b) in &m.lines {
            let l = &text[*a..*b];
            if l.starts_with("attributes #") {
                let name = l["attributes ".len()..].split(' ').next().unwrap().to_string();
                if l.contains(" noreturn ") {
                    m.noreturn_groups.insert(name);
                }
            }
        }
        let mut glines = vec![];
        let mut aliases = vec![];
        let mut i = 0;
        while i < m.lines.len() {
            let (a, b) = m.lines[i];
            let l = &text[a..b];
            if l.starts_with('@') {
                let lx = lex(l);
                if lx.toks.iter().take(12).any(|t| *t == Tok::Word("alias")) {
                    aliases.push(i);
                } else {
                    glines.push(i);
                }
            } else if l.starts_with("define") || l.starts_with("declare") {
                let is_def = l.starts_with("define");
                let lx = lex(l);
                let name: Arc<str> = lx
                    .toks
                    .iter()
                    .find_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None })
                    .ok_or("fn name")?
                    .into();
                let mut noreturn = false;
                for t in &lx.toks {
                    if let Tok::Word(w) = t {
                        if *w == "noreturn" || (w.starts_with('#') && m.noreturn_groups.contains(*w)) {
                            noreturn = true;
                        }
                    }
                }
                let mut body = None;
                if is_def {
                    let s0 = i;
                    while &text[m.lines[i].0..m.lines[i].1] != "}" {
                        i += 1;
                    }
                    body = Some((s0, i));
                }
                let id = m.func_by_id.len() + 1;
                let addr = mkaddr(REG_FUNC, id as u64);
                m.names.insert(name.to_string(), addr);
                let d = Arc::new(FuncDecl { name: name.clone(), body, noreturn, addr, id, parsed: OnceLock::new(), shape: OnceLock::new() });
                m.func_by_id.push(d.clone());
                m.funcs.insert(name, d);
            }
            i += 1;
        }
        // globals: names first
        for (k, gi) in glines.iter().enumerate() {
            let (a, b) = m.lines[*gi];
            let lx = lex(&text[a..b]);
            if let Tok::Global(g) = &lx.toks[0] {
                m.names.insert(g.clone(), mkaddr(REG_GLOBAL, k as u64 + 1));
            }
        }
        for gi in aliases {
            let (a, b) = m.lines[gi];
            let lx = lex(&text[a..b]);
            let gs: Vec<String> = lx.toks.iter().filter_map(|t| if let Tok::Global(g) = t { Some(g.clone()) } else { None }).collect();
            if gs.len() == 2 {
                if let Some(x) = m.names.get(&gs[1]).copied() {
                    m.names.insert(gs[0].clone(), x);
                    if let Some(f) = m.funcs.get(gs[1].as_str()).cloned() {
                        m.funcs.insert(gs[0].as_str().into(), f);
                    }
                }
            }
        }
        for (k, gi) in glines.iter().enumerate() {
            let (a, b) = m.lines[*gi];
            let mut lx = lex(&text[a..b]);
            let name = match lx.next() {
                Tok::Global(g) => g,
                _ => unreachable!(),
            };
            lx.expect(b'=')?;
            let mut external = false;
            let constant;
            loop {
                match lx.next() {
                    Tok::Word("global") => {
                        constant = false;
                        break;
                    }
                    Tok::Word("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::End => return Err(format!("global {}", name)),
                    _ => {}
                }
            }
            let ty = lx.ty()?;
            let init = if external { None } else { Some(m.konst(&mut lx, &ty).map_err(|e| format!("global {}: {}", name, e))?) };
            m.globals.push(Global { name, addr: mkaddr(REG_GLOBAL, k as u64 + 1), ty, constant, init });
        }
        // Objects are 2^32 apart here, so tables of distances get a copy that
        // holds the addresses meant.
        for k in 0..m.globals.len() {
            let g = &m.globals[k];
            let ds = match &g.init {
                Some(K::A(x)) if x.iter().any(|x| matches!(x, K::D(_))) => x.clone(),
                _ => continue,
            };
            let to = |x: &K| match x {
                K::D(d) => K::I(g.addr.wrapping_add(*d) as u128),
                K::I(d) => K::I(g.addr.wrapping_add(*d as u32 as i32 as u64) as u128),
                _ => K::U,
            };
            let init = Some(K::A(Arc::new(ds.iter().map(to).collect())));
            let (from, addr) = (g.addr, mkaddr(REG_GLOBAL, m.globals.len() as u64 + 1));
            let name = format!("{}.abs", g.name);
            m.relative.insert(from, addr);
            m.globals.push(Global { name, addr, ty: Ty::Array(ds.len() as u64, Arc::new(Ty::Ptr)), constant: true, init });
        }
        // identical unnamed constants with plain data share one address, so that
        // blocks that differ only in which copy they use compare equal
        m.text = text;
        Ok(m)
    }

    fn konst(&self, lx: &mut Lex, ty: &Ty) -> R<K> {
        match lx.next() {
            Tok::Word(w) => match w {
                "zeroinitializer" => Ok(zero_of(ty)),
                "null" | "false" => Ok(K::I(0)),
                "none" => Ok(K::I(0)),
                "true" => Ok(K::I(1)),
                "undef" | "poison" => Ok(if ty.is_agg() { K::A(Arc::new((0..ty.nfields()).map(|_| K::U).collect())) } else { K::U }),
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" => {
                    lx.expect(b'(')?;
                    let t = lx.ty()?;
                    let k = self.konst(lx, &t)?;
                    lx.word()?; // to
                    let t2 = lx.ty()?;
                    lx.expect(b')')?;
                    match k {
                        K::I(v) if w == "trunc" && t.bits() == 64 && t2.bits() == 32 && v as u64 as i64 != v as u64 as i32 as i64 => Ok(K::D(v as u64)),
                        K::I(v) => Ok(K::I(if w == "sext" { (sext(v, t.bits()) as u128) & mask(t2.bits()) } else { v & mask(t2.bits()) })),
                        k => Ok(k),
                    }
                }
                "add" | "sub" | "mul" | "xor" | "shl" | "and" | "or" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.pos += 1;
                    }
                    lx.expect(b'(')?;
                    let t = lx.ty()?;
                    let a = self.konst(lx, &t)?;
                    lx.expect(b',')?;
                    let t2 = lx.ty()?;
                    let b = self.konst(lx, &t2)?;
                    lx.expect(b')')?;
                    let op = match w {
                        "add" => Op::Add,
                        "sub" => Op::Sub,
                        "mul" => Op::Mul,
                        "xor" => Op::Xor,
                        "and" => Op::And,
                        "or" => Op::Or,
                        _ => Op::Shl,
                    };
                    match (a, b) {
                        (K::I(x), K::I(y)) => Ok(K::I(crate::expr::fold(op, t.bits(), x, y))),
                        _ => Ok(K::U),
                    }
                }
                "getelementptr" => {
                    while let Tok::Word(_) = lx.peek() {
                        lx.pos += 1;
                        if *lx.peek() == Tok::P(b'(') && matches!(lx.peek_at(1), Tok::Word(x) if parse_int(x).is_some()) {
                            lx.skip_group(); // inrange(...)
                        }
                    }
                    lx.expect(b'(')?;
                    let mut t = lx.ty()?;
                    lx.expect(b',')?;
                    let pt = lx.ty()?;
                    let mut v = match self.konst(lx, &pt)? {
                        K::I(v) => v,
                        _ => return Err("gep base".into()),
                    };
                    let mut first = true;
                    while lx.eat(b',') {
                        let it = lx.ty()?;
                        let ix = match self.konst(lx, &it)? {
                            K::I(v) => sext(v, it.bits()),
                            _ => return Err("gep idx".into()),
                        };
                        if first {
                            v = v.wrapping_add((ix * t.size() as i128) as u128);
                            first = false;
                        } else {
                            let (o, ft) = t.field(ix as usize);
                            v = v.wrapping_add(o as u128);
                            t = ft;
                        }
                    }
                    lx.expect(b')')?;
                    Ok(K::I(v & mask(64)))
                }
                "splat" => {
                    lx.expect(b'(')?;
                    let t = lx.ty()?;
                    let k = self.konst(lx, &t)?;
                    lx.expect(b')')?;
                    Ok(K::A(Arc::new(vec![k; ty.nfields()])))
                }
                "dso_local_equivalent" | "no_cfi" => self.konst(lx, ty),
                _ => {
                    if let Ty::Flt(fw) = ty {
                        return float_const(lx, w, *fw).map(K::I);
                    }
                    match parse_int(w) {
                        Some(v) => Ok(K::I(v & mask(ty.bits()))),
                        None => Err(format!("constant {:?} of type {:?}", w, ty)),
                    }
                }
            },
            Tok::Global(g) => match self.names.get(&g) {
                Some(a) => Ok(K::I(*a as u128)),
                None => Err(format!("unknown global {}", g)),
            },
            Tok::Str(s) => Ok(K::A(Arc::new(unescape_bytes(s).into_iter().map(|b| K::I(b as u128)).collect()))),
            Tok::P(b'{') | Tok::P(b'[') => {
                let mut v = vec![];
                loop {
                    if lx.eat(b'}') || lx.eat(b']') {
                        break;
                    }
                    let t = lx.ty()?;
                    v.push(self.konst(lx, &t)?);
                    lx.eat(b',');
                }
                Ok(K::A(Arc::new(v)))
            }
            Tok::P(b'<') => {
                if *lx.peek() == Tok::P(b'{') {
                    let k = self.konst(lx, ty)?;
                    lx.expect(b'>')?;
                    return Ok(k);
                }
                let mut v = vec![];
                loop {
                    if lx.eat(b'>') {
                        break;
                    }
                    let t = lx.ty()?;
                    v.push(self.konst(lx, &t)?);
                    lx.eat(b',');
                }
                Ok(K::A(Arc::new(v)))
            }
            t => Err(format!("constant {:?}", t)),
        }
    }

    pub fn func(&self, d: &FuncDecl) -> Result<&'static Func, String> {
        d.parsed.get_or_init(|| self.parse_func(d).map(|f| &*Box::leak(Box::new(f)))).clone()
    }

    fn ints<'a>(&self, blocks: &'a mut [Block]) -> Vec<(u32, &'a mut Opd)> {
        let mut v = vec![];
        for b in blocks {
            for (_, i) in &mut b.ins {
                v.extend(const_opds(i, &|n| self.func_by_id[n as usize - 1].body.is_some()));
            }
            if let Term::Ret(Some((Ty::Int(w), o))) = &mut b.term {
                if *w <= 64 {
                    v.push((*w, o));
                }
            }
        }
        v.retain(|x| matches!(x.1, Opd::K(K::I(_))));
        v
    }

    pub fn shape<'a>(&self, d: &'a FuncDecl) -> Option<&'a Shape> {
        d.shape
            .get_or_init(|| {
                let f = self.func(d).ok()?;
                if f.ninstr > 300 {
                    return None;
                }
                let mut blocks = f.blocks.clone();
                let mut ints = vec![];
                for (w, o) in self.ints(&mut blocks) {
                    if let Opd::K(K::I(k)) = o {
                        ints.push((w, *k));
                    }
                    *o = Opd::K(K::D(0));
                }
                Some(Shape { text: format!("{:?} {} {:?}", f.params, f.nregs, blocks), ints })
            })
            .as_ref()
    }

    /// `ids`: functions of the same shape.
    pub fn family(&self, ids: &[u32]) -> Arc<Family> {
        let mut families = self.families.lock().unwrap();
        if let Some(x) = families.get(ids) {
            return x.clone();
        }
        let shapes: Vec<&Shape> = ids.iter().map(|i| self.shape(&self.func_by_id[*i as usize - 1]).unwrap()).collect();
        let rep = self.func(&self.func_by_id[ids[0] as usize - 1]).unwrap();
        let holes: Vec<usize> = (0..shapes[0].ints.len()).filter(|k| shapes.iter().any(|s| s.ints[*k] != shapes[0].ints[*k])).collect();
        let mut blocks = rep.blocks.clone();
        let mut params = rep.params.clone();
        let mut ints = self.ints(&mut blocks);
        for (n, k) in holes.iter().enumerate() {
            params.push(rep.nregs + n as u32);
            *ints[*k].1 = Opd::R(rep.nregs + n as u32);
        }
        let f = Func { name: rep.name.clone(), params, nregs: rep.nregs + holes.len() as u32, blocks, ninstr: rep.ninstr };
        let x = Arc::new(Family { f: Box::leak(Box::new(f)), holes });
        families.insert(ids.to_vec(), x.clone());
        x
    }

    fn parse_func(&self, d: &FuncDecl) -> R<Func> {
        let (l0, l1) = d.body.ok_or("no body")?;
        let mut p = FnParser { m: self, regs: HashMap::new(), nregs: 0, labels: HashMap::new(), nlabels: 0 };
        // header
        let h = &self.text[self.lines[l0].0..self.lines[l0].1];
        let mut lx = lex(h);
        while !matches!(lx.peek(), Tok::Global(_)) {
            lx.pos += 1;
        }
        lx.pos += 1;
        lx.expect(b'(')?;
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !lx.eat(b')') {
            loop {
                if lx.eat(b'.') {
                    return Err("varargs".into());
                }
                let _t = lx.ty()?;
                lx.skip_attrs();
                let name = match lx.peek() {
                    Tok::Local(n) => {
                        let n = n.clone();
                        lx.pos += 1;
                        n
                    }
                    _ => {
                        let n = unnamed.to_string();
                        n
                    }
                };
                if name.parse::<u32>().is_ok() {
                    unnamed += 1;
                }
                params.push(p.reg(&name));
                if !lx.eat(b',') {
                    break;
                }
            }
        }
        let mut blocks: Vec<Option<Block>> = vec![];
        let mut cur: Option<(u32, Vec<Phi>, Vec<(u32, Ins)>)> = None;
        let mut ninstr = 0;
        let mut i = l0 + 1;
        let line = |k: usize| &self.text[self.lines[k].0..self.lines[k].1];
        while i < l1 {
            let l = line(i);
            i += 1;
            if l.is_empty() || l.starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let lab = if let Some(r) = l.strip_prefix('"') {
                    unquote(&r[..r.find('"').unwrap()])
                } else {
                    l[..l.find(':').ok_or("label")?].to_string()
                };
                cur = Some((p.label(&lab), vec![], vec![]));
                continue;
            }
            if cur.is_none() {
                // unnamed entry block takes the next number
                cur = Some((p.label(&unnamed.to_string()), vec![], vec![]));
            }
            let mut buf = String::new();
            let t = l.trim_start();
            let mut l = l;
            if t.starts_with("switch ") && !t.contains(']') {
                buf.push_str(l);
                while !line(i).contains(']') {
                    buf.push(' ');
                    buf.push_str(line(i));
                    i += 1;
                }
                buf.push_str(line(i));
                i += 1;
                l = &buf;
            } else {
                // continuation lines of invoke / landingpad are indented by more than two spaces
                let mut k = i;
                while k < l1 && line(k).starts_with("          ") {
                    k += 1;
                }
                if k > i {
                    buf.push_str(l);
                    for j in i..k {
                        buf.push(' ');
                        buf.push_str(line(j));
                    }
                    i = k;
                    l = &buf;
                }
            }
            ninstr += 1;
            let c = cur.as_mut().unwrap();
            match p.instr(l).map_err(|e| format!("{}: {} in: {}", d.name, e, l))? {
                Parsed::Phi(ph) => c.1.push(ph),
                Parsed::Ins(r, x) => c.2.push((r, x)),
                Parsed::Invoke(r, x, dest) => {
                    c.2.push((r, x));
                    let (b, ph, ins) = cur.take().unwrap();
                    put(&mut blocks, b, Block { phis: ph, ins, term: Term::Br(dest), plan: None });
                }
                Parsed::Term(t) => {
                    let (b, ph, ins) = cur.take().unwrap();
                    put(&mut blocks, b, Block { phis: ph, ins, term: t, plan: None });
                }
            }
        }
        let n = p.nlabels as usize;
        blocks.resize_with(n, || None);
        let blocks: Vec<Block> = blocks
            .into_iter()
            .enumerate()
            .map(|(k, b)| b.ok_or_else(|| format!("{}: block {} missing", d.name, k)))
            .collect::<R<_>>()?;
        let mut f = Func { name: d.name.clone(), params, nregs: p.nregs, blocks, ninstr };
        merge_switches(&mut f, &|n| self.func_by_id[n as usize - 1].body.is_some());
        Ok(f)
    }
}

fn put(v: &mut Vec<Option<Block>>, i: u32, b: Block) {
    if v.len() <= i as usize {
        v.resize_with(i as usize + 1, || None);
    }
    v[i as usize] = Some(b);
}

enum Parsed {
    Phi(Phi),
    Ins(u32, Ins),
    Invoke(u32, Ins, u32),
    Term(Term),
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    nregs: u32,
    labels: HashMap<String, u32>,
    nlabels: u32,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn label(&mut self, n: &str) -> u32 {
        if let Some(r) = self.labels.get(n) {
            return *r;
        }
        let r = self.nlabels;
        self.nlabels += 1;
        self.labels.insert(n.to_string(), r);
        r
    }
    fn opd(&mut self, lx: &mut Lex, ty: &Ty) -> R<Opd> {
        if let Tok::Local(n) = lx.peek() {
            let n = n.clone();
            lx.pos += 1;
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(Opd::K(self.m.konst(lx, ty)?))
    }
    fn tyopd(&mut self, lx: &mut Lex) -> R<(Ty, Opd)> {
        let t = lx.ty()?;
        if t == Ty::Other {
            // metadata or label operand
            lx.pos += 1;
            return Ok((t, Opd::K(K::U)));
        }
        lx.skip_attrs();
        let o = self.opd(lx, &t)?;
        Ok((t, o))
    }
    fn lab(&mut self, lx: &mut Lex) -> R<u32> {
        if !lx.eat_word("label") {
            return Err("label".into());
        }
        match lx.next() {
            Tok::Local(n) => Ok(self.label(&n)),
            t => Err(format!("label {:?}", t)),
        }
    }
    fn instr(&mut self, l: &str) -> R<Parsed> {
        let mut lx = lex(l);
        let mut res = NONE;
        if let (Tok::Local(n), Tok::P(b'=')) = (lx.peek().clone(), lx.peek_at(1).clone()) {
            res = self.reg(&n);
            lx.pos += 2;
        }
        let mut w = lx.word()?;
        while matches!(w, "tail" | "musttail" | "notail") {
            w = lx.word()?;
        }
        let ins = match w {
            "phi" => {
                let ty = loop {
                    if lx.is_type_start() {
                        break lx.ty()?;
                    }
                    lx.pos += 1;
                };
                let mut inc = vec![];
                loop {
                    if !lx.eat(b'[') {
                        break;
                    }
                    let o = self.opd(&mut lx, &ty)?;
                    lx.expect(b',')?;
                    let b = match lx.next() {
                        Tok::Local(n) => self.label(&n),
                        t => return Err(format!("phi label {:?}", t)),
                    };
                    lx.expect(b']')?;
                    inc.push((b, o));
                    if !lx.eat(b',') {
                        break;
                    }
                }
                return Ok(Parsed::Phi(Phi { res, ty, inc }));
            }
            "br" => {
                if let Tok::Word("label") = lx.peek() {
                    return Ok(Parsed::Term(Term::Br(self.lab(&mut lx)?)));
                }
                let (_, c) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let a = self.lab(&mut lx)?;
                lx.expect(b',')?;
                let b = self.lab(&mut lx)?;
                return Ok(Parsed::Term(Term::Cond(c, a, b)));
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let d = self.lab(&mut lx)?;
                lx.expect(b'[')?;
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let (_, k) = self.tyopd(&mut lx)?;
                    lx.expect(b',')?;
                    let b = self.lab(&mut lx)?;
                    match k {
                        Opd::K(K::I(x)) => cases.push((x, b)),
                        _ => return Err("switch case".into()),
                    }
                }
                return Ok(Parsed::Term(Term::Switch(t.bits(), v, d, cases)));
            }
            "ret" => {
                if let Tok::Word("void") = lx.peek() {
                    return Ok(Parsed::Term(Term::Ret(None)));
                }
                let (t, v) = self.tyopd(&mut lx)?;
                return Ok(Parsed::Term(Term::Ret(Some((t, v)))));
            }
            "unreachable" => return Ok(Parsed::Term(Term::Unreachable)),
            "resume" => return Ok(Parsed::Term(Term::Unreachable)),
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let t = lx.ty()?;
                let a = self.opd(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.opd(&mut lx, &t)?;
                let op = match w {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                Ins::Bin(op, t, a, b)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let t = lx.ty()?;
                let a = self.opd(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.opd(&mut lx, &t)?;
                Ins::FBin(w.to_string(), t, a, b)
            }
            "fneg" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let (t, a) = self.tyopd(&mut lx)?;
                Ins::FBin(w.to_string(), t, a.clone(), a)
            }
            "icmp" => {
                let mut pw = lx.word()?;
                if pw == "samesign" {
                    pw = lx.word()?;
                }
                let pred = match pw {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {}", x)),
                };
                let t = lx.ty()?;
                let a = self.opd(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.opd(&mut lx, &t)?;
                Ins::Icmp(pred, t, a, b)
            }
            "fcmp" => {
                let mut pw = lx.word()?;
                while !lx.is_type_start() {
                    pw = lx.word()?;
                }
                let t = lx.ty()?;
                let a = self.opd(&mut lx, &t)?;
                lx.expect(b',')?;
                let b = self.opd(&mut lx, &t)?;
                Ins::Fcmp(pw.to_string(), t, a, b)
            }
            "trunc" | "zext" | "sext" | "bitcast" | "ptrtoint" | "inttoptr" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "fpext" | "fptrunc" | "addrspacecast" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let (t, v) = self.tyopd(&mut lx)?;
                if !lx.eat_word("to") {
                    return Err("cast".into());
                }
                let t2 = lx.ty()?;
                let k = match w {
                    "trunc" => CastK::Trunc,
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "bitcast" => CastK::Bit,
                    "ptrtoint" | "inttoptr" => {
                        let (a, b) = (t.bits(), t2.bits());
                        if a == b {
                            CastK::Bit
                        } else if a > b {
                            CastK::Trunc
                        } else {
                            CastK::Zext
                        }
                    }
                    _ => CastK::Fp,
                };
                Ins::Cast(k, w.to_string(), t, t2, v)
            }
            "select" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let (ct, c) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (t, a) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, b) = self.tyopd(&mut lx)?;
                Ins::Select(ct, c, t, a, b)
            }
            "load" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let t = lx.ty()?;
                lx.expect(b',')?;
                let (_, p) = self.tyopd(&mut lx)?;
                Ins::Load(t, p)
            }
            "store" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let (t, v) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, p) = self.tyopd(&mut lx)?;
                Ins::Store(t, v, p)
            }
            "getelementptr" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                    if *lx.peek() == Tok::P(b'(') {
                        lx.skip_group();
                    }
                }
                let mut t = lx.ty()?;
                lx.expect(b',')?;
                let (_, base) = self.tyopd(&mut lx)?;
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                while lx.eat(b',') {
                    if *lx.peek() == Tok::Meta {
                        break;
                    }
                    let (it, ix) = self.tyopd(&mut lx)?;
                    if it.is_agg() {
                        return Ok(Parsed::Ins(res, Ins::Unsupported("vector gep".into())));
                    }
                    let scale;
                    if first {
                        scale = t.size() as i64;
                        first = false;
                    } else if let Ty::Struct(..) = t {
                        match &ix {
                            Opd::K(K::I(v)) => {
                                let (o, ft) = t.field(*v as usize);
                                off += o as i64;
                                t = ft;
                                continue;
                            }
                            _ => return Err("gep struct idx".into()),
                        }
                    } else {
                        let (_, ft) = t.field(0);
                        scale = ft.size() as i64;
                        t = ft;
                    }
                    match &ix {
                        Opd::K(K::I(v)) => off += (sext(*v, it.bits()) as i64).wrapping_mul(scale),
                        Opd::K(K::U) => return Ok(Parsed::Ins(res, Ins::Unsupported("gep undef".into()))),
                        _ => idx.push((ix, it.bits(), scale)),
                    }
                }
                Ins::Gep(base, off, idx)
            }
            "alloca" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let t = lx.ty()?;
                let mut n = Opd::K(K::I(1));
                let mut al = 1;
                while lx.eat(b',') {
                    if lx.eat_word("align") {
                        al = lx.word()?.parse().unwrap_or(1);
                    } else if lx.is_type_start() {
                        n = self.tyopd(&mut lx)?.1;
                    } else {
                        break;
                    }
                }
                Ins::Alloca(t.size(), al, n)
            }
            "call" | "invoke" => {
                lx.skip_attrs();
                let rt = lx.ty()?;
                if *lx.peek() == Tok::P(b'(') {
                    lx.skip_group(); // function type of a varargs callee
                }
                let callee = match lx.next() {
                    Tok::Global(g) => match self.m.funcs.get(g.as_str()) {
                        Some(d) => Callee::F(d.id as u32),
                        None => return Err(format!("unknown function {}", g)),
                    },
                    Tok::Local(n) => Callee::P(Opd::R(self.reg(&n))),
                    Tok::Word("asm") => return Ok(Parsed::Ins(res, Ins::Unsupported("inline asm".into()))),
                    Tok::Word(x) => {
                        lx.pos -= 1;
                        let _ = x;
                        Callee::P(Opd::K(self.m.konst(&mut lx, &Ty::Ptr)?))
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                lx.expect(b'(')?;
                let mut args = vec![];
                let is_meta = matches!(&callee, Callee::F(n) if {
                    let n = &self.m.func_by_id[*n as usize - 1].name;
                    n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.dbg")
                });
                if is_meta {
                    return Ok(Parsed::Ins(NONE, Ins::Nop));
                }
                if !lx.eat(b')') {
                    loop {
                        args.push(self.tyopd(&mut lx)?);
                        if !lx.eat(b',') {
                            break;
                        }
                    }
                    lx.expect(b')')?;
                }
                let mut noreturn = false;
                while let Tok::Word(x) = lx.peek() {
                    if *x == "to" {
                        break;
                    }
                    if *x == "noreturn" || self.m.noreturn_groups.contains(*x) {
                        noreturn = true;
                    }
                    lx.pos += 1;
                }
                let ins = Ins::Call(callee, args, rt, noreturn);
                if w == "invoke" {
                    // skip to "to label"
                    while !matches!(lx.peek(), Tok::Word("to") | Tok::End) {
                        lx.pos += 1;
                    }
                    lx.pos += 1;
                    let d = self.lab(&mut lx)?;
                    return Ok(Parsed::Invoke(res, ins, d));
                }
                ins
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Word(x) => ix.push(x.parse().map_err(|_| "idx")?),
                        _ => break,
                    }
                }
                Ins::Extract(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, v) = self.tyopd(&mut lx)?;
                let mut ix = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Word(x) => ix.push(x.parse().map_err(|_| "idx")?),
                        _ => break,
                    }
                }
                Ins::Insert(t, a, v, ix)
            }
            "freeze" => {
                let (t, a) = self.tyopd(&mut lx)?;
                Ins::Freeze(t, a)
            }
            "fence" => Ins::Nop,
            "atomicrmw" => {
                let mut op = lx.word()?;
                if op == "volatile" {
                    op = lx.word()?;
                }
                let (_, p) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (t, v) = self.tyopd(&mut lx)?;
                Ins::Rmw(op.to_string(), t, p, v)
            }
            "cmpxchg" => {
                while !lx.is_type_start() {
                    lx.pos += 1;
                }
                let (_, p) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (t, c) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, n) = self.tyopd(&mut lx)?;
                Ins::CmpXchg(t, p, c, n)
            }
            "extractelement" => {
                let (t, a) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, i) = self.tyopd(&mut lx)?;
                Ins::ExtractElem(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, v) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, i) = self.tyopd(&mut lx)?;
                Ins::InsertElem(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let (_, b) = self.tyopd(&mut lx)?;
                lx.expect(b',')?;
                let mt = lx.ty()?;
                let k = self.m.konst(&mut lx, &mt)?;
                Ins::Shuffle(t, a, b, k)
            }
            "landingpad" | "cleanuppad" | "catchpad" | "va_arg" | "indirectbr" | "callbr" => Ins::Unsupported(w.to_string()),
            x => return Err(format!("unknown instruction {}", x)),
        };
        Ok(Parsed::Ins(res, ins))
    }
}

// ------------------------------------------------- equivalent switch arms

fn opd_uses(o: &Opd, f: &mut dyn FnMut(u32)) {
    if let Opd::R(r) = o {
        f(*r)
    }
}

/// all register operands of an instruction
pub fn ins_uses(i: &Ins, f: &mut dyn FnMut(u32)) {
    match i {
        Ins::Bin(_, _, a, b) | Ins::FBin(_, _, a, b) | Ins::Icmp(_, _, a, b) | Ins::Fcmp(_, _, a, b) => {
            opd_uses(a, f);
            opd_uses(b, f)
        }
        Ins::Cast(_, _, _, _, a) | Ins::Load(_, a) | Ins::Extract(a, _) | Ins::Freeze(_, a) | Ins::Alloca(_, _, a) => opd_uses(a, f),
        Ins::Select(_, c, _, a, b) => {
            opd_uses(c, f);
            opd_uses(a, f);
            opd_uses(b, f)
        }
        Ins::Store(_, a, b) | Ins::Insert(_, a, b, _) | Ins::Rmw(_, _, a, b) | Ins::ExtractElem(_, a, b) | Ins::Shuffle(_, a, b, _) => {
            opd_uses(a, f);
            opd_uses(b, f)
        }
        Ins::CmpXchg(_, a, b, c) | Ins::InsertElem(_, a, b, c) => {
            opd_uses(a, f);
            opd_uses(b, f);
            opd_uses(c, f)
        }
        Ins::Gep(b, _, ix) => {
            opd_uses(b, f);
            for (o, _, _) in ix {
                opd_uses(o, f)
            }
        }
        Ins::Call(c, args, _, _) => {
            if let Callee::P(o) = c {
                opd_uses(o, f)
            }
            for (_, o) in args {
                opd_uses(o, f)
            }
        }
        Ins::Nop | Ins::Unsupported(_) => {}
    }
}

fn map_ins(i: &Ins, m: &HashMap<u32, u32>) -> Ins {
    let g = |o: &Opd| match o {
        Opd::R(r) => Opd::R(m.get(r).copied().unwrap_or(*r)),
        k => k.clone(),
    };
    match i {
        Ins::Bin(o, t, a, b) => Ins::Bin(*o, t.clone(), g(a), g(b)),
        Ins::FBin(o, t, a, b) => Ins::FBin(o.clone(), t.clone(), g(a), g(b)),
        Ins::Icmp(o, t, a, b) => Ins::Icmp(*o, t.clone(), g(a), g(b)),
        Ins::Fcmp(o, t, a, b) => Ins::Fcmp(o.clone(), t.clone(), g(a), g(b)),
        Ins::Cast(k, s, a, b, o) => Ins::Cast(*k, s.clone(), a.clone(), b.clone(), g(o)),
        Ins::Select(ct, c, t, a, b) => Ins::Select(ct.clone(), g(c), t.clone(), g(a), g(b)),
        Ins::Load(t, p) => Ins::Load(t.clone(), g(p)),
        Ins::Store(t, v, p) => Ins::Store(t.clone(), g(v), g(p)),
        Ins::Gep(b, o, ix) => Ins::Gep(g(b), *o, ix.iter().map(|(o, w, s)| (g(o), *w, *s)).collect()),
        Ins::Alloca(a, b, n) => Ins::Alloca(*a, *b, g(n)),
        Ins::Call(c, args, t, n) => Ins::Call(
            match c {
                Callee::P(o) => Callee::P(g(o)),
                c => c.clone(),
            },
            args.iter().map(|(t, o)| (t.clone(), g(o))).collect(),
            t.clone(),
            *n,
        ),
        Ins::Extract(a, ix) => Ins::Extract(g(a), ix.clone()),
        Ins::Insert(t, a, v, ix) => Ins::Insert(t.clone(), g(a), g(v), ix.clone()),
        Ins::Freeze(t, a) => Ins::Freeze(t.clone(), g(a)),
        Ins::Rmw(o, t, p, v) => Ins::Rmw(o.clone(), t.clone(), g(p), g(v)),
        Ins::CmpXchg(t, a, b, c) => Ins::CmpXchg(t.clone(), g(a), g(b), g(c)),
        Ins::ExtractElem(t, a, b) => Ins::ExtractElem(t.clone(), g(a), g(b)),
        Ins::InsertElem(t, a, b, c) => Ins::InsertElem(t.clone(), g(a), g(b), g(c)),
        Ins::Shuffle(t, a, b, k) => Ins::Shuffle(t.clone(), g(a), g(b), k.clone()),
        Ins::Nop => Ins::Nop,
        Ins::Unsupported(s) => Ins::Unsupported(s.clone()),
    }
}

/// Integer operands in which two otherwise equal instructions may differ.
fn const_opds<'a>(i: &'a mut Ins, body: &dyn Fn(u32) -> bool) -> Vec<(u32, &'a mut Opd)> {
    let int = |t: &Ty| match t {
        Ty::Int(w) if *w <= 64 => Some(*w),
        _ => None,
    };
    match i {
        Ins::Bin(_, t, a, b) | Ins::Icmp(_, t, a, b) | Ins::Select(_, _, t, a, b) => match int(t) {
            Some(w) => vec![(w, a), (w, b)],
            None => vec![],
        },
        Ins::Store(t, v, _) => int(t).map(|w| (w, v)).into_iter().collect(),
        Ins::Call(Callee::F(n), args, _, _) if body(*n) => args.iter_mut().filter_map(|(t, o)| int(t).map(|w| (w, o))).collect(),
        _ => vec![],
    }
}

/// Where a constant of an arm stands.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Loc {
    Ins(u32, usize, usize),
    Edge(u32, u32, usize),
}

struct Iso<'a> {
    f: &'a Func,
    map: HashMap<u32, u32>, // register of side A -> register of side B
    seen: Vec<(u32, u32)>,
    budget: i32,
    body: &'a dyn Fn(u32) -> bool,
    /// constants of side A that differ, by their place on side B
    diff: Vec<(Loc, u32, u128)>,
    slots: &'a Slots,
    /// stack slots of side A and their counterparts
    paired: Vec<(u32, u32)>,
}

/// Stack slots of a function and the blocks that use them.
struct Slots {
    size: HashMap<u32, (u64, u64)>,
    uses: HashMap<u32, Vec<u32>>,
}

impl Slots {
    fn new(f: &Func) -> Slots {
        let mut size = HashMap::new();
        let mut uses: HashMap<u32, Vec<u32>> = HashMap::new();
        for (r, i) in &f.blocks[0].ins {
            if let Ins::Alloca(a, b, Opd::K(K::I(1))) = i {
                size.insert(*r, (*a, *b));
            }
        }
        for (bi, b) in f.blocks.iter().enumerate() {
            let mut u = |r: u32| {
                if size.contains_key(&r) {
                    let v = uses.entry(r).or_default();
                    if v.last() != Some(&(bi as u32)) {
                        v.push(bi as u32);
                    }
                }
            };
            for p in &b.phis {
                for (_, o) in &p.inc {
                    opd_uses(o, &mut u);
                }
            }
            for (_, i) in &b.ins {
                ins_uses(i, &mut u);
            }
            match &b.term {
                Term::Ret(Some((_, o))) | Term::Cond(o, _, _) | Term::Switch(_, o, _, _) => opd_uses(o, &mut u),
                _ => {}
            }
        }
        Slots { size, uses }
    }
    /// Is the slot used in these blocks only?
    fn only(&self, r: u32, blocks: &dyn Fn(u32) -> bool) -> bool {
        self.uses.get(&r).map_or(true, |v| v.iter().all(|b| blocks(*b)))
    }
}

impl<'a> Iso<'a> {
    fn opd(&self, a: &Opd, b: &Opd) -> bool {
        match (a, b) {
            (Opd::R(x), Opd::R(y)) => self.map.get(x).copied().unwrap_or(*x) == *y,
            (Opd::K(x), Opd::K(y)) => x == y,
            _ => false,
        }
    }
    /// Lets stack slots of the two sides stand for one another.
    fn pair(&mut self, a: &Ins, b: &Ins) {
        let (mut xs, mut ys) = (vec![], vec![]);
        ins_uses(a, &mut |r| xs.push(r));
        ins_uses(b, &mut |r| ys.push(r));
        if xs.len() != ys.len() {
            return;
        }
        for (x, y) in xs.into_iter().zip(ys) {
            if x != y && !self.map.contains_key(&x) {
                match (self.slots.size.get(&x), self.slots.size.get(&y)) {
                    (Some(p), Some(q)) if p == q && !self.paired.iter().any(|z| z.1 == y) => {
                        self.map.insert(x, y);
                        self.paired.push((x, y));
                    }
                    _ => {}
                }
            }
        }
    }
    /// Paired slots must not live outside their arms.
    fn private(&self) -> bool {
        self.paired.iter().all(|(x, y)| {
            self.slots.only(*x, &|b| self.seen.iter().any(|s| s.0 == b)) && self.slots.only(*y, &|b| self.seen.iter().any(|s| s.1 == b))
        })
    }
    fn edge(&mut self, t: &Ty, a: &Opd, b: &Opd, loc: Loc) -> bool {
        if self.opd(a, b) {
            return true;
        }
        match (t, a, b) {
            (Ty::Int(w), Opd::K(K::I(x)), Opd::K(K::I(_))) if *w <= 64 => {
                self.diff.push((loc, *w, *x));
                true
            }
            _ => false,
        }
    }
    /// Does execution entering `a` from `pa` behave like execution entering `b` from `pb`,
    /// up to the constants noted in `diff`?
    fn block(&mut self, a: u32, pa: u32, b: u32, pb: u32) -> bool {
        let f = self.f;
        let (ba, bb) = (&f.blocks[a as usize], &f.blocks[b as usize]);
        if ba.phis.len() != bb.phis.len() {
            return false;
        }
        // a block with several predecessors could be reached from outside the region
        // with other phi values; that does not matter for this entry
        for (k, (p, q)) in ba.phis.iter().zip(&bb.phis).enumerate() {
            let va = p.inc.iter().find(|(x, _)| *x == pa);
            let vb = q.inc.iter().find(|(x, _)| *x == pb);
            match (va, vb) {
                (Some((_, x)), Some((_, y))) if p.ty == q.ty && self.edge(&p.ty, x, y, Loc::Edge(pb, b, k)) => {}
                _ => return false,
            }
        }
        if a == b || self.seen.contains(&(a, b)) {
            return true;
        }
        // every block of the region has one counterpart
        if self.seen.iter().any(|x| x.0 == a || x.1 == b) {
            return false;
        }
        self.seen.push((a, b));
        self.budget -= 1 + ba.ins.len() as i32;
        if self.budget < 0 || ba.ins.len() != bb.ins.len() {
            return false;
        }
        for (p, q) in ba.phis.iter().zip(&bb.phis) {
            self.map.insert(p.res, q.res);
        }
        for (k, ((ra, ia), (rb, ib))) in ba.ins.iter().zip(&bb.ins).enumerate() {
            if (*ra == NONE) != (*rb == NONE) {
                return false;
            }
            self.pair(ia, ib);
            let mut x = map_ins(ia, &self.map);
            let mut y = ib.clone();
            if x != y {
                let (xs, ys) = (const_opds(&mut x, self.body), const_opds(&mut y, self.body));
                if xs.len() != ys.len() {
                    return false;
                }
                for (n, ((_, o), (w, q))) in xs.into_iter().zip(ys).enumerate() {
                    if let (Opd::K(K::I(u)), Opd::K(K::I(v))) = (&*o, &*q) {
                        if u != v {
                            self.diff.push((Loc::Ins(b, k, n), w, *u));
                            *o = q.clone();
                        }
                    }
                }
            }
            if x != y {
                return false;
            }
            if *ra != NONE {
                self.map.insert(*ra, *rb);
            }
        }
        match (&ba.term, &bb.term) {
            (Term::Ret(None), Term::Ret(None)) => true,
            (Term::Ret(Some((t, x))), Term::Ret(Some((u, y)))) => t == u && self.opd(x, y),
            (Term::Unreachable, Term::Unreachable) => true,
            (Term::Br(x), Term::Br(y)) => self.block(*x, a, *y, b),
            (Term::Cond(c, x, y), Term::Cond(d, z, w)) => self.opd(c, d) && self.block(*x, a, *z, b) && self.block(*y, a, *w, b),
            _ => false,
        }
    }
}

/// The arms of one switch that are equal up to constants.
struct Class {
    key: u64,
    rep: u32,
    arms: Vec<(u32, HashMap<Loc, u128>)>,
    locs: std::collections::BTreeMap<Loc, u32>,
    region: std::collections::BTreeSet<u32>,
}

/// Most constants an arm may be parameterised by.
const MAX_LOCS: usize = 8;

/// Gives each class of arms that differ in constants a copy of its code, in which those
/// constants are phis over the arms.
fn merge_arms(f: &mut Func, bi: u32, class: &Class) -> HashMap<u32, u32> {
    let mut param: HashMap<Loc, u32> = HashMap::new();
    for l in class.locs.keys() {
        param.insert(*l, f.nregs);
        f.nregs += 1;
    }
    let first = f.blocks.len() as u32;
    let copy: HashMap<u32, u32> = class.region.iter().enumerate().map(|(k, b)| (*b, first + k as u32)).collect();
    let ent = |k: usize| first + class.region.len() as u32 + k as u32;
    let never = |_| true;
    let val = |pb: u32, b: u32, k: usize, o: &Opd| param.get(&Loc::Edge(pb, b, k)).map(|r| Opd::R(*r)).unwrap_or(o.clone());
    let mut new = vec![];
    let mut outs: Vec<(u32, usize, u32, Opd)> = vec![];
    for &b in &class.region {
        let bl = &f.blocks[b as usize];
        let mut phis = vec![];
        for (k, p) in bl.phis.iter().enumerate() {
            let mut inc: Vec<(u32, Opd)> = vec![];
            for (pr, o) in &p.inc {
                if let Some(c) = copy.get(pr) {
                    inc.push((*c, val(*pr, b, k, o)));
                }
            }
            if b == class.rep {
                for (n, (arm, _)) in class.arms.iter().enumerate() {
                    let q = &f.blocks[*arm as usize].phis[k];
                    let o = q.inc.iter().find(|x| x.0 == bi).unwrap().1.clone();
                    inc.push((ent(n), o));
                }
            }
            phis.push(Phi { res: p.res, ty: p.ty.clone(), inc });
        }
        if b == class.rep {
            for (l, w) in &class.locs {
                let Opd::K(K::I(own)) = constant(f, *l) else { panic!("not a constant") };
                let mut inc: Vec<(u32, Opd)> = class.arms.iter().enumerate().map(|(n, (_, d))| (ent(n), Opd::K(K::I(d.get(l).copied().unwrap_or(own))))).collect();
                // an arm that loops keeps its constants
                for (x, c) in &copy {
                    let again = match &f.blocks[*x as usize].term {
                        Term::Br(t) => *t == b,
                        Term::Cond(_, t, e) => *t == b || *e == b,
                        _ => false,
                    };
                    if again {
                        inc.push((*c, Opd::R(param[l])));
                    }
                }
                phis.push(Phi { res: param[l], ty: Ty::Int(*w), inc });
            }
        }
        let mut ins = bl.ins.clone();
        for (k, (_, i)) in ins.iter_mut().enumerate() {
            for (n, (_, o)) in const_opds(i, &never).into_iter().enumerate() {
                if let Some(r) = param.get(&Loc::Ins(b, k, n)) {
                    *o = Opd::R(*r);
                }
            }
        }
        let me = copy[&b];
        let mut to = |t: u32| -> u32 {
            match copy.get(&t) {
                Some(c) => *c,
                None => {
                    for (k, p) in f.blocks[t as usize].phis.iter().enumerate() {
                        let o = &p.inc.iter().find(|x| x.0 == b).unwrap().1;
                        outs.push((t, k, me, val(b, t, k, o)));
                    }
                    t
                }
            }
        };
        let term = match &bl.term {
            Term::Br(x) => Term::Br(to(*x)),
            Term::Cond(c, x, y) => Term::Cond(c.clone(), to(*x), to(*y)),
            t => t.clone(),
        };
        new.push(Block { phis, ins, term, plan: None });
    }
    let mut map = HashMap::new();
    for (n, (arm, _)) in class.arms.iter().enumerate() {
        new.push(Block { phis: vec![], ins: vec![], term: Term::Br(copy[&class.rep]), plan: None });
        map.insert(*arm, ent(n));
    }
    for (t, k, me, o) in outs {
        let inc = &mut f.blocks[t as usize].phis[k].inc;
        if !inc.iter().any(|x| x.0 == me) {
            inc.push((me, o));
        }
    }
    f.blocks.extend(new);
    map
}

fn constant(f: &Func, l: Loc) -> Opd {
    match l {
        Loc::Ins(b, k, n) => {
            let mut i = f.blocks[b as usize].ins[k].1.clone();
            let o = const_opds(&mut i, &|_| true).swap_remove(n).1.clone();
            o
        }
        Loc::Edge(pb, b, k) => f.blocks[b as usize].phis[k].inc.iter().find(|x| x.0 == pb).unwrap().1.clone(),
    }
}

fn arm_key(f: &Func, b: u32) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut b = b;
    for _ in 0..4 {
        let bl = &f.blocks[b as usize];
        bl.ins.len().hash(&mut h);
        for (_, i) in &bl.ins {
            std::mem::discriminant(i).hash(&mut h);
            if let Ins::Call(Callee::F(n), _, _, _) = i {
                n.hash(&mut h);
            }
        }
        match &bl.term {
            Term::Br(x) => b = *x,
            t => {
                std::mem::discriminant(t).hash(&mut h);
                break;
            }
        }
    }
    h.finish()
}

/// A block that only jumps on.
fn forwards(f: &Func, b: u32) -> Option<u32> {
    let bl = &f.blocks[b as usize];
    if bl.phis.is_empty() && bl.ins.is_empty() {
        if let Term::Br(x) = bl.term {
            return Some(x);
        }
    }
    None
}

fn merge_switches(f: &mut Func, body: &dyn Fn(u32) -> bool) {
    let slots = Slots::new(f);
    let mut bi = 0;
    while bi < f.blocks.len() {
        merge_switch(f, bi, body, &slots);
        bi += 1;
    }
}

fn merge_switch(f: &mut Func, bi: usize, body: &dyn Fn(u32) -> bool, slots: &Slots) {
    if let Term::Switch(_, _, def, cases) = &f.blocks[bi].term {
        let (def, cases) = (*def, cases.clone());
        let mut classes: Vec<Class> = vec![];
        let mut map: HashMap<u32, u32> = HashMap::new();
        for t in std::iter::once(def).chain(cases.iter().map(|x| x.1)) {
            if map.contains_key(&t) {
                continue;
            }
            map.insert(t, t);
            if forwards(f, t).is_some() {
                continue;
            }
            let key = arm_key(f, t);
            let mut done = false;
            for c in classes.iter_mut() {
                if c.key != key {
                    continue;
                }
                let mut iso = Iso { f, map: HashMap::new(), seen: vec![], budget: 400, body, diff: vec![], slots, paired: vec![] };
                if !iso.block(t, bi as u32, c.rep, bi as u32) || !iso.private() {
                    continue;
                }
                // constants of the entry edge are taken from the arm itself
                iso.diff.retain(|x| !matches!(x.0, Loc::Edge(p, r, _) if p == bi as u32 && r == c.rep));
                let extra = iso.diff.iter().filter(|x| !c.locs.contains_key(&x.0)).count();
                if c.locs.len() + extra > MAX_LOCS {
                    continue;
                }
                let mut own = HashMap::new();
                for (l, w, v) in iso.diff {
                    c.locs.insert(l, w);
                    own.insert(l, v);
                }
                c.region.extend(iso.seen.iter().map(|x| x.1));
                c.arms.push((t, own));
                done = true;
                break;
            }
            if !done {
                let arms = vec![(t, HashMap::new())];
                classes.push(Class { key, rep: t, arms, locs: Default::default(), region: Default::default() });
            }
        }
        for c in &classes {
            if c.arms.len() < 2 {
                continue;
            }
            if c.locs.is_empty() && f.blocks[c.rep as usize].phis.is_empty() {
                for (t, _) in &c.arms {
                    map.insert(*t, c.rep);
                }
            } else {
                map.extend(merge_arms(f, bi as u32, c));
            }
        }
        // where each target finally goes, and from which block
        let dest = |t: u32| -> (u32, u32) {
            let r = map[&t];
            match forwards(f, r) {
                Some(m) => (m, r),
                None => (r, bi as u32),
            }
        };
        let mut groups: Vec<Group> = vec![];
        let mut gidx: HashMap<u32, usize> = HashMap::new();
        let mut case = HashMap::new();
        let mut add = |t: u32, groups: &mut Vec<Group>| -> (usize, u32) {
            let (tg, pred) = dest(t);
            let g = *gidx.entry(tg).or_insert_with(|| {
                groups.push(Group { target: tg, preds: vec![], values: vec![], is_default: false });
                groups.len() - 1
            });
            if !groups[g].preds.contains(&pred) {
                groups[g].preds.push(pred);
            }
            (g, pred)
        };
        for (v, t) in &cases {
            let (g, pred) = add(*t, &mut groups);
            groups[g].values.push(*v);
            case.insert(*v, (g, pred));
        }
        let (default, default_pred) = add(def, &mut groups);
        groups[default].is_default = true;
        f.blocks[bi].plan = Some(Plan { groups, default, default_pred, case });
    }
}
