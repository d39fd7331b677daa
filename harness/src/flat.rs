//! Turns decoded values of whasm into event sequences.

use crate::tr::Tr;
use whasm::structure::{instr::Instr, module, ty};
use whasm::validation::module::result;

pub fn val(v: &ty::Val) -> u64 {
    match v {
        ty::Val::I32 => 0x7f,
        ty::Val::I64 => 0x7e,
        ty::Val::F32 => 0x7d,
        ty::Val::F64 => 0x7c,
    }
}

pub fn vals(t: &mut Tr, v: &[ty::Val]) {
    t.p(v.len() as u64);
    for x in v {
        t.p(val(x));
    }
}

pub fn ret(t: &mut Tr, r: &ty::RetVal) {
    if r.0.is_empty() {
        t.p(0x40);
    } else if r.0.len() == 1 {
        t.p(val(&r.0[0]));
    } else {
        t.p(0xbad0 + r.0.len() as u64);
    }
}

pub fn lim(t: &mut Tr, l: &ty::Limits) {
    t.p(l.max.is_some() as u64);
    t.p(l.min as u64);
    if let Some(m) = l.max {
        t.p(m as u64);
    }
}

pub fn table(t: &mut Tr, x: &ty::Table) {
    t.p(match x.elem {
        ty::Elem::FuncRef => 0x70,
    });
    lim(t, &x.lim);
}

pub fn global(t: &mut Tr, g: &ty::Global) {
    t.p(val(&g.val));
    t.p(match g.mt {
        ty::Mut::Const => 0,
        ty::Mut::Var => 1,
    });
}

pub fn func_ty(t: &mut Tr, f: &ty::Func) {
    t.p(0x60);
    vals(t, &f.params);
    vals(t, &f.results);
}

/// Every instruction maps to its standard opcode followed by its immediates.
pub fn instr(t: &mut Tr, i: &Instr) {
    macro_rules! map {
        (plain { $($p:ident $po:literal,)* } mem { $($m:ident $mo:literal,)* } $($rest:tt)*) => {
            match i {
                $(Instr::$p => t.p($po),)*
                $(Instr::$m(a, o) => { t.p($mo); t.p(*a as u64); t.p(*o as u64); })*
                $($rest)*
            }
        };
    }
    map! {
        plain {
                    Unreachable 0x00, Nop 0x01, Else 0x105, End 0x10b, Return 0x0f, Drop 0x1a,
                    Select 0x1b, I32Eqz 0x45, I32Eq 0x46, I32Ne 0x47, I32LtS 0x48, I32LtU 0x49,
                    I32GtS 0x4a, I32GtU 0x4b, I32LeS 0x4c, I32LeU 0x4d, I32GeS 0x4e, I32GeU 0x4f,
                    I64Eqz 0x50, I64Eq 0x51, I64Ne 0x52, I64LtS 0x53, I64LtU 0x54, I64GtS 0x55,
                    I64GtU 0x56, I64LeS 0x57, I64LeU 0x58, I64GeS 0x59, I64GeU 0x5a, F32Eq 0x5b,
                    F32Ne 0x5c, F32Lt 0x5d, F32Gt 0x5e, F32Le 0x5f, F32Ge 0x60, F64Eq 0x61,
                    F64Ne 0x62, F64Lt 0x63, F64Gt 0x64, F64Le 0x65, F64Ge 0x66, I32Clz 0x67,
                    I32Ctz 0x68, I32Popcnt 0x69, I32Add 0x6a, I32Sub 0x6b, I32Mul 0x6c, I32DivS 0x6d,
                    I32DivU 0x6e, I32RemS 0x6f, I32RemU 0x70, I32And 0x71, I32Or 0x72, I32Xor 0x73,
                    I32Shl 0x74, I32ShrS 0x75, I32ShrU 0x76, I32Rotl 0x77, I32Rotr 0x78, I64Clz 0x79,
                    I64Ctz 0x7a, I64Popcnt 0x7b, I64Add 0x7c, I64Sub 0x7d, I64Mul 0x7e, I64DivS 0x7f,
                    I64DivU 0x80, I64RemS 0x81, I64RemU 0x82, I64And 0x83, I64Or 0x84, I64Xor 0x85,
                    I64Shl 0x86, I64ShrS 0x87, I64ShrU 0x88, I64Rotl 0x89, I64Rotr 0x8a, F32Abs 0x8b,
                    F32Neg 0x8c, F32Ceil 0x8d, F32Floor 0x8e, F32Trunc 0x8f, F32Nearest 0x90, F32Sqrt 0x91,
                    F32Add 0x92, F32Sub 0x93, F32Mul 0x94, F32Div 0x95, F32Min 0x96, F32Max 0x97,
                    F32Copysign 0x98, F64Abs 0x99, F64Neg 0x9a, F64Ceil 0x9b, F64Floor 0x9c, F64Trunc 0x9d,
                    F64Nearest 0x9e, F64Sqrt 0x9f, F64Add 0xa0, F64Sub 0xa1, F64Mul 0xa2, F64Div 0xa3,
                    F64Min 0xa4, F64Max 0xa5, F64Copysign 0xa6, I32WrapI64 0xa7, I32TruncF32S 0xa8, I32TruncF32U 0xa9,
                    I32TruncF64S 0xaa, I32TruncF64U 0xab, I64ExtendI32S 0xac, I64ExtendI32U 0xad, I64TruncF32S 0xae, I64TruncF32U 0xaf,
                    I64TruncF64S 0xb0, I64TruncF64U 0xb1, F32ConvertI32S 0xb2, F32ConvertI32U 0xb3, F32ConvertI64S 0xb4, F32ConvertI64U 0xb5,
                    F32DemoteF64 0xb6, F64ConvertI32S 0xb7, F64ConvertI32U 0xb8, F64ConvertI64S 0xb9, F64ConvertI64U 0xba, F64PromoteF32 0xbb,
                    I32ReinterpretF32 0xbc, I64ReinterpretF64 0xbd, F32ReinterpretI32 0xbe, F64ReinterpretI64 0xbf,
        }
        mem {
                    I32Load 0x28, I64Load 0x29, F32Load 0x2a, F64Load 0x2b, I32Load8S 0x2c, I32Load8U 0x2d,
                    I32Load16S 0x2e, I32Load16U 0x2f, I64Load8S 0x30, I64Load8U 0x31, I64Load16S 0x32, I64Load16U 0x33,
                    I64Load32S 0x34, I64Load32U 0x35, I32Store 0x36, I64Store 0x37, F32Store 0x38, F64Store 0x39,
                    I32Store8 0x3a, I32Store16 0x3b, I64Store8 0x3c, I64Store16 0x3d, I64Store32 0x3e,
        }
        Instr::Block(r, e) => { t.p(0x02); ret(t, r); expr(t, &e.0); }
        Instr::Loop(r, e) => { t.p(0x03); ret(t, r); expr(t, &e.0); }
        Instr::If(r, a, b) => {
            t.p(0x04);
            ret(t, r);
            for i in a.0.iter() {
                instr(t, i);
            }
            t.p(0x05);
            expr(t, &b.0);
        }
        Instr::Br(l) => { t.p(0x0c); t.p(l.0 as u64); }
        Instr::BrIf(l) => { t.p(0x0d); t.p(l.0 as u64); }
        Instr::BrTable(v, l) => {
            t.p(0x0e);
            t.p(v.len() as u64);
            for x in v.iter() {
                t.p(x.0 as u64);
            }
            t.p(l.0 as u64);
        }
        Instr::Call(f) => { t.p(0x10); t.p(f.0 as u64); }
        Instr::CallIndirect(y, x) => { t.p(0x11); t.p(y.0 as u64); t.p(x.0 as u64); }
        Instr::LocalGet(x) => { t.p(0x20); t.p(x.0 as u64); }
        Instr::LocalSet(x) => { t.p(0x21); t.p(x.0 as u64); }
        Instr::LocalTee(x) => { t.p(0x22); t.p(x.0 as u64); }
        Instr::GlobalGet(x) => { t.p(0x23); t.p(x.0 as u64); }
        Instr::GlobalSet(x) => { t.p(0x24); t.p(x.0 as u64); }
        Instr::MemSize(x) => { t.p(0x3f); t.p(x.0 as u64); }
        Instr::MemGrow(x) => { t.p(0x40); t.p(x.0 as u64); }
        Instr::ConstI32(x) => { t.p(0x41); t.p(*x as i64 as u64); }
        Instr::ConstI64(x) => { t.p(0x42); t.p(*x as u64); }
        Instr::ConstF32(x) => { t.p(0x43); t.p(x.to_bits() as u64); }
        Instr::ConstF64(x) => { t.p(0x44); t.p(x.to_bits()); }
    }
}

pub fn expr(t: &mut Tr, e: &[Instr]) {
    for i in e.iter() {
        instr(t, i);
    }
    t.p(0x0b);
}

pub fn bytes(t: &mut Tr, b: &[u8]) {
    t.p(b.len() as u64);
    for x in b {
        t.p(*x as u64);
    }
}

/// The whole module, in the order of its sections.
pub fn module(t: &mut Tr, m: &module::Module) {
    t.p(m.types.len() as u64);
    for x in m.types.iter() {
        func_ty(t, x);
    }
    t.p(m.imports.len() as u64);
    for x in m.imports.iter() {
        import(t, x);
    }
    t.p(m.funcs.len() as u64);
    for x in m.funcs.iter() {
        t.p(x.ty.0 as u64);
    }
    t.p(m.tables.len() as u64);
    for x in m.tables.iter() {
        table(t, &x.ty);
    }
    t.p(m.mems.len() as u64);
    for x in m.mems.iter() {
        lim(t, &x.ty.lim);
    }
    t.p(m.globals.len() as u64);
    for x in m.globals.iter() {
        global(t, &x.ty);
        expr(t, &x.init.0);
    }
    t.p(m.exports.len() as u64);
    for x in m.exports.iter() {
        export(t, x);
    }
    match &m.start {
        None => t.p(0),
        Some(s) => {
            t.p(1);
            t.p(s.func.0 as u64);
        }
    }
    t.p(m.elem.len() as u64);
    for x in m.elem.iter() {
        elem(t, x);
    }
    t.p(m.funcs.len() as u64);
    for x in m.funcs.iter() {
        vals(t, &x.locals);
        expr(t, &x.body.0);
    }
    t.p(m.data.len() as u64);
    for x in m.data.iter() {
        data(t, x);
    }
}

pub fn import(t: &mut Tr, x: &module::Import) {
    bytes(t, x.module.as_bytes());
    bytes(t, x.name.as_bytes());
    match &x.desc {
        module::desc::Import::Func(i) => {
            t.p(0);
            t.p(i.0 as u64);
        }
        module::desc::Import::Table(y) => {
            t.p(1);
            table(t, y);
        }
        module::desc::Import::Mem(y) => {
            t.p(2);
            lim(t, &y.lim);
        }
        module::desc::Import::Global(y) => {
            t.p(3);
            global(t, y);
        }
    }
}

pub fn export(t: &mut Tr, x: &module::Export) {
    bytes(t, x.name.as_bytes());
    let (k, i) = match &x.desc {
        module::desc::Export::Func(i) => (0, i.0),
        module::desc::Export::Table(i) => (1, i.0),
        module::desc::Export::Mem(i) => (2, i.0),
        module::desc::Export::Global(i) => (3, i.0),
    };
    t.p(k);
    t.p(i as u64);
}

pub fn elem(t: &mut Tr, x: &module::Elem) {
    t.p(x.table.0 as u64);
    expr(t, &x.offset.0);
    t.p(x.init.len() as u64);
    for f in x.init.iter() {
        t.p(f.0 as u64);
    }
}

pub fn data(t: &mut Tr, x: &module::Data) {
    t.p(x.mem.0 as u64);
    expr(t, &x.offset.0);
    bytes(t, &x.init);
}

/// External types reported by validation.
pub fn externals(t: &mut Tr, r: &result::Module) {
    for v in [&r.imports, &r.exports] {
        t.p(v.len() as u64);
        for x in v.iter() {
            match x {
                result::External::Func(f) => {
                    t.p(0);
                    func_ty(t, f);
                }
                result::External::Table(y) => {
                    t.p(1);
                    table(t, y);
                }
                result::External::Mem(y) => {
                    t.p(2);
                    lim(t, &y.lim);
                }
                result::External::Global(y) => {
                    t.p(3);
                    global(t, y);
                }
            }
        }
    }
}
