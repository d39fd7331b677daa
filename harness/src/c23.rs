//! Modules built in memory.

use crate::flat;
use crate::rt::*;
use crate::spec::Mod;
use crate::tr::Tr;
use crate::whole::*;
use whasm::structure::instr::{ConstExpr, Expr, Instr};
use whasm::structure::module::{Data, Elem, Func, Global, Mem, Module, Table};
use whasm::structure::{idx, ty};
use whasm::validation::ValidationEntry;

fn of(v: u8) -> ty::Val {
    match v {
        0x7f => ty::Val::I32,
        0x7e => ty::Val::I64,
        0x7d => ty::Val::F32,
        _ => ty::Val::F64,
    }
}

/// Builds instructions and, next to them, their encoding; `bad` if there is none.
struct B {
    b: Buf,
    bad: bool,
}

impl B {
    /// A result type of up to two values.
    fn ret(&mut self) -> ty::RetVal {
        match choose(3) {
            0 => {
                self.b.u(0x40);
                ty::RetVal(vec![])
            }
            1 => {
                let v = vt();
                self.b.u(v);
                ty::RetVal(vec![of(v)])
            }
            _ => {
                self.bad = true;
                self.b.u(0x40);
                ty::RetVal(vec![of(vt()), of(vt())])
            }
        }
    }
    fn end(&mut self) {
        self.b.u(0x0b);
    }
    fn list(&mut self, n: u64, deep: u64, labels: u8) -> Vec<Instr> {
        let mut v = vec![];
        for _ in 0..n {
            v.push(self.instr(deep, labels));
        }
        v
    }
    fn instr(&mut self, deep: u64, labels: u8) -> Instr {
        let b = &mut self.b;
        match choose(if deep > 0 { 14 } else { 11 }) {
            0 => { b.u(0x00); Instr::Unreachable }
            1 => { b.u(0x01); Instr::Nop }
            2 => { self.bad = true; Instr::Else }
            3 => { self.bad = true; Instr::End }
            4 => { b.u(0x1a); Instr::Drop }
            5 => { b.u(0x0f); Instr::Return }
            6 => { b.u(0x41).u(0); Instr::ConstI32(0) }
            7 => { b.u(0x42).u(0); Instr::ConstI64(0) }
            8 => { b.u(0x20).u(1); Instr::LocalGet(idx::Local(1)) }
            9 => {
                let l = below(labels + 3);
                b.u(0x0c).u(l);
                Instr::Br(idx::Label(l as u32))
            }
            10 => {
                let l = below(labels + 3);
                b.u(0x0d).u(l);
                Instr::BrIf(idx::Label(l as u32))
            }
            11 => {
                b.u(0x02);
                let r = self.ret();
                let e = self.list(deep, 0, labels + 1);
                self.end();
                Instr::Block(r, Expr(e))
            }
            12 => {
                b.u(0x03);
                let r = self.ret();
                let e = self.list(deep, 0, labels + 1);
                self.end();
                Instr::Loop(r, Expr(e))
            }
            _ => {
                b.u(0x04);
                let r = self.ret();
                let x = self.list(1, 0, labels + 1);
                self.b.u(0x05);
                let y = self.list(deep - 1, 0, labels + 1);
                self.end();
                Instr::If(r, Expr(x), Expr(y))
            }
        }
    }
}

fn judge(m: &Module, b: &[u8], bad: bool) {
    let mut t = Tr::new();
    let mut got = false;
    if let Ok(e) = m.validate() {
        got = true;
        flat::externals(&mut t, &e);
    }
    let mut s = Mod::new();
    let want = !bad && s.module(b).is_some() & s.ok;
    if got {
        reach(1);
        check(1, want);
    } else {
        reach(2);
        check(2, !want);
    }
    obs(got as u64);
}

entries! {
    /// A function of `n` instructions, structured ones holding `deep` more, with `nr` results.
    fn c23_body(n, deep, nr) {
        let v = vt();
        let mut b = Buf::module();
        let s = b.open(Some(1));
        b.put(&[1, 0x60, 2, 0x7f]).u(v).u(nr as u8);
        let mut results = vec![];
        for _ in 0..nr {
            let r = vt();
            b.u(r);
            results.push(of(r));
        }
        b.close(s);
        b.sec(3, &[1, 0]);
        let s = b.open(Some(10));
        b.u(1);
        let f = b.open(None);
        b.u(0);
        let mut x = B { b, bad: false };
        let body = x.list(n, deep, 0);
        x.end();
        let B { mut b, bad } = x;
        b.close(f);
        b.close(s);
        let mut m = Module::default();
        m.types.push(ty::Func { params: vec![ty::Val::I32, of(v)], results });
        m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(body) });
        judge(&m, b.s(), bad);
    }
    /// A marker among the instructions of an otherwise valid body or initialiser.
    fn c23_marker(at) {
        let mark = || if choose(2) == 0 { Instr::Else } else { Instr::End };
        let k = || Instr::ConstI32(1);
        let mut m = Module::default();
        let i32_ = || ty::RetVal(vec![ty::Val::I32]);
        let none = || ty::RetVal(vec![]);
        m.types.push(ty::Func { params: vec![], results: vec![ty::Val::I32] });
        let mut body = vec![k()];
        let mut init = vec![k()];
        let mut bad = true;
        match at {
            0 => body = vec![k(), mark(), k()],
            1 => body = vec![k(), mark()],
            2 => body = vec![mark(), k()],
            3 => body = vec![Instr::Block(i32_(), Expr(vec![k(), mark(), k()]))],
            4 => body = vec![Instr::Loop(i32_(), Expr(vec![k(), mark(), k()]))],
            5 => body = vec![k(), Instr::If(i32_(), Expr(vec![k(), mark(), k()]), Expr(vec![k()]))],
            6 => body = vec![k(), Instr::If(i32_(), Expr(vec![k()]), Expr(vec![k(), mark(), k()]))],
            7 => body = vec![Instr::Unreachable, mark(), k()],
            8 => body = vec![Instr::Return, mark(), Instr::Unreachable],
            9 => init = vec![k(), mark(), k()],
            10 => init = vec![k(), mark()],
            11 => init = vec![mark(), k()],
            12 => body = vec![Instr::Block(i32_(), Expr(vec![Instr::Loop(i32_(), Expr(vec![k(), mark()]))]))],
            13 => body = vec![Instr::Unreachable, Instr::If(i32_(), Expr(vec![mark(), k()]), Expr(vec![k()]))],
            14 => body = vec![Instr::Return, Instr::Block(i32_(), Expr(vec![k(), mark()]))],
            15 => body = vec![mark()],
            16 => body = vec![Instr::Unreachable, mark()],
            17 => body = vec![k(), Instr::If(none(), Expr(vec![mark()]), Expr(vec![])), k()],
            18 => body = vec![k(), Instr::If(none(), Expr(vec![]), Expr(vec![mark()])), k()],
            19 => body = vec![Instr::Block(none(), Expr(vec![mark()])), k()],
            20 => body = vec![Instr::Loop(none(), Expr(vec![Instr::Br(idx::Label(0)), mark()])), k()],
            21 => m.elem.push(Elem { table: idx::Table(0), offset: ConstExpr(vec![k(), mark()]), init: vec![] }),
            22 => m.data.push(Data { mem: idx::Mem(0), offset: ConstExpr(vec![k(), mark()]), init: vec![] }),
            23 => m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(vec![k(), mark()]) }),
            24 => init = vec![mark()],
            _ => bad = false,
        }
        m.tables.push(Table { ty: ty::Table { lim: ty::Limits { min: 0, max: None }, elem: ty::Elem::FuncRef } });
        m.mems.push(Mem { ty: ty::Mem { lim: ty::Limits { min: 0, max: None } } });
        m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(body) });
        m.globals.push(Global { ty: ty::Global { mt: ty::Mut::Const, val: ty::Val::I32 }, init: ConstExpr(init) });
        let got = m.validate().is_ok();
        check(1, got == !bad);
        if got { reach(1); } else { reach(2); }
        obs(got as u64);
    }
    /// A construct with `n` results around as many values, as the whole body or dropped behind it.
    fn c23_results(n, how) {
        let mut m = Module::default();
        m.types.push(ty::Func { params: vec![], results: vec![] });
        let mut types = vec![];
        let mut inner = vec![];
        for _ in 0..n {
            types.push(ty::Val::I32);
            inner.push(Instr::ConstI32(0));
        }
        let again = || (0..n).map(|_| Instr::ConstI32(0)).collect::<Vec<_>>();
        let r = ty::RetVal(types);
        let mut body = vec![];
        match how {
            0 => body.push(Instr::Block(r, Expr(inner))),
            1 => body.push(Instr::Loop(r, Expr(inner))),
            2 => {
                body.push(Instr::ConstI32(0));
                body.push(Instr::If(r, Expr(inner), Expr(again())));
            }
            3 => body.push(Instr::Block(r, Expr(vec![Instr::Unreachable]))),
            // in unreachable code, nested, and never left
            4 => {
                body.push(Instr::Unreachable);
                body.push(Instr::Block(r, Expr(inner)));
            }
            5 => body.push(Instr::Block(ty::RetVal(vec![]), Expr(vec![Instr::Return, Instr::Loop(r, Expr(inner)), Instr::Unreachable]))),
            6 => body.push(Instr::Loop(r, Expr(vec![Instr::Br(idx::Label(0))]))),
            _ => {
                inner.push(Instr::Br(idx::Label(0)));
                body.push(Instr::Block(r, Expr(inner)));
            }
        }
        if how == 5 {
            m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(vec![]) });
            m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(body) });
            let got = m.validate().is_ok();
            check(2, got == (n < 2));
            if got { reach(1); } else { reach(2); }
            return obs(got as u64);
        }
        for _ in 0..n { body.push(Instr::Drop); }
        m.funcs.push(Func { ty: idx::Type(0), locals: vec![], body: Expr(body) });
        let got = m.validate().is_ok();
        check(1, got == (n < 2));
        if got { reach(1); } else { reach(2); }
        obs(got as u64);
    }
}
