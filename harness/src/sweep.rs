//! Systematic sweep: every instruction x every way an operand can be produced x every way the result
//! can be consumed. Modules are packed with many small functions; the reference decides the outcome.
use crate::gen::*;
use crate::mb::*;
use crate::rng::Rng;
use wasm_encoder::Instruction as I;
use wasm_encoder::{BlockType, HeapType};

#[derive(Clone)]
pub struct Op {
    pub code: Vec<I<'static>>,
    pub params: Vec<(T, Vec<u64>)>,
    pub result: Option<T>,
}
pub const NF: usize = 18;
pub const NS: usize = 26;

pub fn op(code: I<'static>, params: &[T], result: T) -> Op {
    Op { code: vec![code], params: params.iter().map(|t| (*t, vec![])).collect(), result: Some(result) }
}
pub fn int_ops() -> Vec<Op> {
    let mut v = vec![];
    for o in BIN32 {
        v.push(op(o, &[T::I32, T::I32], T::I32));
    }
    for o in CMP32 {
        v.push(op(o, &[T::I32, T::I32], T::I32));
    }
    for o in UN32 {
        v.push(op(o, &[T::I32], T::I32));
    }
    for o in BIN64 {
        v.push(op(o, &[T::I64, T::I64], T::I64));
    }
    for o in CMP64 {
        v.push(op(o, &[T::I64, T::I64], T::I32));
    }
    for o in UN64 {
        v.push(op(o, &[T::I64], T::I64));
    }
    v.push(op(I::I64Eqz, &[T::I64], T::I32));
    v.push(Op { code: vec![], params: vec![(T::I32, vec![])], result: Some(T::I32) });
    v.push(Op { code: vec![], params: vec![(T::I64, vec![])], result: Some(T::I64) });
    v
}
pub fn float_ops() -> Vec<Op> {
    let mut v = vec![];
    for o in BINF32 {
        v.push(op(o, &[T::F32, T::F32], T::F32));
    }
    for o in CMPF32 {
        v.push(op(o, &[T::F32, T::F32], T::I32));
    }
    for o in UNF32 {
        v.push(op(o, &[T::F32], T::F32));
    }
    for o in BINF64 {
        v.push(op(o, &[T::F64, T::F64], T::F64));
    }
    for o in CMPF64 {
        v.push(op(o, &[T::F64, T::F64], T::I32));
    }
    for o in UNF64 {
        v.push(op(o, &[T::F64], T::F64));
    }
    v.push(Op { code: vec![], params: vec![(T::F32, vec![])], result: Some(T::F32) });
    v.push(Op { code: vec![], params: vec![(T::F64, vec![])], result: Some(T::F64) });
    v
}
pub fn conv_ops() -> Vec<Op> {
    CONVS.iter().map(|c| op(c.0.clone(), &[c.1], c.2)).collect()
}
/// loads and stores at the given static offsets; addresses around the given points
pub fn mem_ops(offsets: &[u64], addrs: &dyn Fn(u64, u32) -> Vec<u64>) -> Vec<Op> {
    let mut v = vec![];
    for off in offsets {
        for l in LOADS {
            for al in [0, l.2.trailing_zeros()] {
                v.push(Op { code: vec![(l.0)(ma(*off, al))], params: vec![(T::I32, addrs(*off, l.2))], result: Some(l.1) });
                if l.2 == 1 {
                    break;
                }
            }
        }
        for s in STORES {
            v.push(Op { code: vec![(s.0)(ma(*off, 0))], params: vec![(T::I32, addrs(*off, s.2)), (s.1, vec![])], result: None });
        }
    }
    v
}
pub fn val_for(r: &mut Rng, p: &(T, Vec<u64>)) -> u64 {
    if p.1.is_empty() {
        arg_bits(r, p.0)
    } else {
        *r.pick(&p.1)
    }
}
pub struct Ctx {
    ids: [u32; 6],
    id3: Vec<(T, u32)>,
    pub has_table: bool,
}
fn ti(t: T) -> usize {
    match t {
        T::I32 => 0,
        T::I64 => 1,
        T::F32 => 2,
        T::F64 => 3,
        T::Fn => 4,
        T::Ex => 5,
    }
}
pub const ALL: [T; 6] = [T::I32, T::I64, T::F32, T::F64, T::Fn, T::Ex];
/// identity functions, globals (4 per type), memory, a table holding the identity functions
pub fn prelude(mb: &mut MB, mem: (u32, Option<u32>), seed: u64) -> Ctx {
    mb.mem = Some(mem);
    let mut ids = [0; 6];
    for (i, t) in ALL.iter().enumerate() {
        ids[i] = mb.func(None, &[*t], &[*t], &[], vec![I::LocalGet(0)]);
    }
    let mut id3 = vec![];
    for t in ALL {
        id3.push((t, mb.func(None, &[T::I64, t, T::I32], &[T::I32, t, T::I64], &[], vec![I::LocalGet(2), I::LocalGet(1), I::LocalGet(0)])));
    }
    for t in ALL {
        for k in 0..4u64 {
            mb.global(t, true, if t.num() { 0x1111 * (k + 1) } else { 0 });
        }
    }
    mb.tables.push((T::Fn, 8, Some(8)));
    mb.elems.push(El::Active { table: None, off: 0, funcs: ids.to_vec() });
    if mem.0 > 0 {
        // recognisable memory content
        let mut r = Rng::new(seed ^ 0x5eed);
        let b: Vec<u8> = (0..256).map(|_| r.u32() as u8).collect();
        mb.datas.push(Da::Active(0, b.clone()));
        mb.datas.push(Da::Active(0xff00, b.clone()));
        if mem.0 > 1 {
            mb.datas.push(Da::Active((mem.0 as i32).wrapping_mul(65536).wrapping_sub(256), b));
        }
    }
    Ctx { ids, id3, has_table: true }
}
fn gidx(t: T, k: usize) -> u32 {
    (ti(t) * 4 + k.min(3)) as u32
}
const SCR: i32 = 0xF000;
pub fn st_of(t: T) -> I<'static> {
    match t {
        T::I32 => I::I32Store(ma(0, 0)),
        T::I64 => I::I64Store(ma(0, 0)),
        T::F32 => I::F32Store(ma(0, 0)),
        _ => I::F64Store(ma(0, 0)),
    }
}
pub fn ld_of(t: T) -> I<'static> {
    match t {
        T::I32 => I::I32Load(ma(0, 0)),
        T::I64 => I::I64Load(ma(0, 0)),
        T::F32 => I::F32Load(ma(0, 0)),
        _ => I::F64Load(ma(0, 0)),
    }
}
pub fn sel(t: T) -> I<'static> {
    if t.num() {
        I::Select
    } else {
        I::TypedSelect(t.vt())
    }
}
pub fn add_of(t: T) -> I<'static> {
    match t {
        T::I32 => I::I32Add,
        T::I64 => I::I64Add,
        T::F32 => I::F32Add,
        _ => I::F64Add,
    }
}
pub fn sub_of(t: T) -> I<'static> {
    match t {
        T::I32 => I::I32Sub,
        T::I64 => I::I64Sub,
        T::F32 => I::F32Sub,
        _ => I::F64Sub,
    }
}
fn xor_id(t: T, c: &mut Vec<I<'static>>) {
    match t {
        T::I32 => {
            c.push(I::I32Const(0));
            c.push(I::I32Add)
        }
        T::I64 => {
            c.push(I::I64Const(0));
            c.push(I::I64Or)
        }
        T::F32 => {
            c.push(I::F32Neg);
            c.push(I::F32Neg)
        }
        T::F64 => {
            c.push(I::F64Neg);
            c.push(I::F64Neg)
        }
        _ => {}
    }
}
/// One function: operands by the given forms, result into the given sink.
pub fn function(mb: &mut MB, cx: &Ctx, r: &mut Rng, o: &Op, forms: &[usize], sink: usize, name: &str, mem: bool) {
    let ps: Vec<T> = o.params.iter().map(|p| p.0).collect();
    let n = ps.len() as u32;
    // scratch: one per parameter, then two per type
    let mut locals: Vec<T> = ps.clone();
    for t in ALL {
        locals.push(t);
        locals.push(t);
    }
    let sc = |k: usize| n + k as u32;
    let scr = |t: T, j: u32| n + n + 2 * ti(t) as u32 + j;
    let mut c: Vec<I<'static>> = vec![];
    let konst = |r: &mut Rng, t: T, v: u64| if t == T::Fn && r.chance(2, 3) { vec![I::I32Const(r.below(6) as i32), I::TableGet(0)] } else { vec![cst(t, v)] };
    // prologue
    for (k, f) in forms.iter().enumerate() {
        let t = ps[k];
        if t == T::Fn && r.chance(2, 3) {
            c.extend([I::I32Const(r.below(6) as i32), I::TableGet(0)]);
            c.push(I::LocalSet(k as u32));
        }
        match f {
            5 if t.num() && mem => {
                c.push(I::I32Const(SCR + 16 * k as i32));
                c.push(I::LocalGet(k as u32));
                c.push(st_of(t));
            }
            5 if t == T::Fn => {
                c.push(I::I32Const(7));
                c.push(I::LocalGet(k as u32));
                c.push(I::TableSet(0));
            }
            6 | 14 if t.num() => {
                c.push(I::LocalGet(k as u32));
                c.push(I::GlobalSet(gidx(t, k)));
            }
            16 => {
                c.push(I::LocalGet(k as u32));
                c.push(I::LocalSet(sc(k)));
            }
            _ => {}
        }
    }
    // what must lie below the operands
    let rt = o.result;
    let mut results: Vec<T> = rt.into_iter().collect();
    let junk = [I::I64Const(0x7a7a7a7a7a), I::F64Const(1.5), I::I32Const(77)];
    let mut sink = match rt {
        None => 100 + sink % 3,
        Some(_) => sink % NS,
    };
    if let Some(t) = rt {
        if t != T::I32 && matches!(sink, 6 | 7 | 8 | 12 | 13 | 18 | 22 | 23) {
            sink = 0;
        }
        if !t.num() && matches!(sink, 3 | 4 | 9 | 10 | 20 | 21) {
            sink = 0;
        }
        if !mem && matches!(sink, 4 | 12) || ps.is_empty() && sink == 14 {
            sink = 0;
        }
    }
    match sink {
        4 => c.push(I::I32Const(SCR + 0x80)),
        7 | 23 => {
            c.push(I::Block(BlockType::Result(T::I32.vt())));
            c.push(I::I32Const(11));
        }
        8 => {
            c.push(I::I64Const(5));
            c.push(I::I64Const(6));
        }
        10 => c.push(cst(rt.unwrap(), if matches!(rt, Some(T::F32)) { 0x40000000 } else if matches!(rt, Some(T::F64)) { 0x4000000000000000 } else { 1000 })),
        11 | 17 | 19 => {
            c.push(I::Block(BlockType::Result(rt.unwrap().vt())));
            if sink != 11 {
                c.push(I::Block(BlockType::Result(rt.unwrap().vt())));
                c.extend(junk.iter().cloned());
            }
        }
        13 => {
            for _ in 0..5 {
                c.push(I::Block(BlockType::Empty));
            }
        }
        14 => {
            c.push(I::I64Const(0x1234567812345678));
            c.push(I::LocalGet(0));
            results = vec![T::I64, ps[0], rt.unwrap(), T::I32];
        }
        24 => c.push(I::I64Const(0x0102030405060708)),
        101 => c.extend(junk.iter().cloned()),
        _ => {}
    }
    // operands
    for (k, f) in forms.iter().enumerate() {
        let t = ps[k];
        let l = k as u32;
        let v = val_for(r, &o.params[k]);
        let other = arg_bits(r, t);
        let g = I::LocalGet(l);
        match f {
            1 => {
                let i = konst(r, t, v);
                c.extend(i)
            }
            2 => {
                c.push(g);
                xor_id(t, &mut c);
            }
            3 => {
                let i = konst(r, t, v);
                c.extend(i);
                xor_id(t, &mut c);
            }
            4 => {
                c.push(g);
                c.push(I::Call(cx.ids[ti(t)]));
            }
            5 if t.num() && mem => {
                c.push(I::I32Const(SCR + 16 * k as i32));
                c.push(ld_of(t));
            }
            5 if t == T::Fn => {
                c.push(I::I32Const(7));
                c.push(I::TableGet(0));
            }
            6 if t.num() => c.push(I::GlobalGet(gidx(t, k))),
            7 => {
                c.push(I::Block(BlockType::Result(t.vt())));
                c.push(g);
                c.push(I::End);
            }
            8 => {
                c.push(g);
                let i = konst(r, t, other);
                c.extend(i);
                c.push(I::I32Const(1));
                c.push(sel(t));
            }
            9 => {
                c.push(g);
                c.push(I::LocalTee(sc(k)));
            }
            10 => {
                c.push(g);
                c.push(cst(t, other));
                c.push(I::LocalSet(l));
            }
            11 => {
                c.push(I::I32Const(r.below(2) as i32));
                c.push(I::If(BlockType::Result(t.vt())));
                c.push(g.clone());
                c.push(I::Else);
                c.push(g);
                c.push(I::End);
            }
            12 => {
                c.push(I::Block(BlockType::Result(t.vt())));
                c.push(I::I64Const(3));
                c.push(g);
                c.push(I::Br(0));
                c.push(I::End);
            }
            13 => {
                c.push(g);
                c.push(I::I32Const(ti(t) as i32));
                let ty = mb.ty(&[t], &[t]);
                c.push(I::CallIndirect { type_index: ty, table_index: 0 });
            }
            14 if t.num() => {
                c.push(I::GlobalGet(gidx(t, k)));
                c.push(cst(t, other));
                c.push(I::GlobalSet(gidx(t, k)));
            }
            15 if t.num() => {
                // ((x + 5) - 5) for integers, copysign chain for floats
                match t {
                    T::I32 | T::I64 => {
                        c.push(g);
                        c.push(cst(t, 5));
                        c.push(add_of(t));
                        c.push(cst(t, 5));
                        c.push(sub_of(t));
                    }
                    T::F32 => {
                        c.push(g.clone());
                        c.push(I::F32Abs);
                        c.push(g);
                        c.push(I::F32Copysign);
                    }
                    _ => {
                        c.push(g.clone());
                        c.push(I::F64Abs);
                        c.push(g);
                        c.push(I::F64Copysign);
                    }
                }
            }
            16 => c.push(I::LocalGet(sc(k))),
            17 => {
                c.push(I::Loop(BlockType::Result(t.vt())));
                c.push(g);
                c.push(I::End);
            }
            _ => c.push(g),
        }
    }
    c.extend(o.code.iter().cloned());
    // sink
    let t = rt.unwrap_or(T::I32);
    match sink {
        0 => {}
        1 => {
            c.push(I::LocalSet(scr(t, 0)));
            c.push(I::LocalGet(scr(t, 0)));
        }
        2 => {
            c.push(I::LocalTee(scr(t, 0)));
            c.push(I::Drop);
            c.push(I::LocalGet(scr(t, 0)));
        }
        3 => {
            c.push(I::GlobalSet(gidx(t, 3)));
            c.push(I::GlobalGet(gidx(t, 3)));
        }
        4 => {
            c.push(st_of(t));
            c.push(I::I32Const(SCR + 0x80));
            c.push(ld_of(t));
        }
        5 => c.push(I::Call(cx.ids[ti(t)])),
        6 => {
            c.push(I::If(BlockType::Result(T::I64.vt())));
            c.push(I::I64Const(11));
            c.push(I::Else);
            c.push(I::I64Const(22));
            c.push(I::End);
            results = vec![T::I64];
        }
        7 => {
            c.push(I::BrIf(0));
            c.push(I::Drop);
            c.push(I::I32Const(22));
            c.push(I::End);
        }
        8 => {
            c.push(I::Select);
            results = vec![T::I64];
        }
        9 => {
            c.push(cst(t, if matches!(t, T::F32) { 0x40000000 } else if matches!(t, T::F64) { 0x4000000000000000 } else { 1000 }));
            c.push(add_of(t));
        }
        10 => c.push(sub_of(t)),
        11 => c.push(I::End),
        12 => {
            c.push(I::I32Const(0xfff8));
            c.push(I::I32And);
            c.push(I::I64Load(ma(0, 0)));
            results = vec![T::I64];
        }
        13 => {
            c.push(I::BrTable(vec![0, 1, 2, 0, 3].into(), 4));
            results = vec![T::I64];
            for k in 0..5i64 {
                c.push(I::End);
                c.push(I::I64Const(100 + k));
                if k < 4 {
                    c.push(I::Return);
                }
            }
        }
        14 => c.push(I::I32Const(99)),
        15 => {
            c.push(I::Drop);
            c.push(I::I32Const(1));
            results = vec![T::I32];
        }
        16 => {
            // overwrite an operand's own local, return every local
            let k = ps.iter().position(|x| *x == t);
            let l = k.map(|k| k as u32).unwrap_or(scr(t, 0));
            c.push(I::LocalSet(l));
            c.push(I::LocalGet(l));
            for (k, p) in ps.iter().enumerate() {
                c.push(I::LocalGet(k as u32));
                results.push(*p);
            }
        }
        17 => {
            c.push(I::Br(1));
            c.push(I::End);
            c.push(I::End);
        }
        19 => {
            c.push(I::Return);
            c.push(I::End);
            c.push(I::End);
        }
        18 => {
            c.push(I::I32Const(5));
            c.push(I::I32LtS);
            c.push(I::If(BlockType::Result(T::I64.vt())));
            c.push(I::I64Const(31));
            c.push(I::Else);
            c.push(I::I64Const(32));
            c.push(I::End);
            results = vec![T::I64];
        }
        20 => match t {
            T::I32 => c.push(I::I32Clz),
            T::I64 => c.push(I::I64Ctz),
            T::F32 => c.push(I::F32Neg),
            _ => c.push(I::F64Neg),
        },
        21 => {
            c.push(I::LocalTee(scr(t, 0)));
            c.push(I::LocalGet(scr(t, 0)));
            c.push(sub_of(t));
            c.push(I::LocalGet(scr(t, 0)));
            results = vec![t, t];
        }
        22 => {
            c.push(I::I32Eqz);
            c.push(I::If(BlockType::Empty));
            c.push(I::I64Const(41));
            c.push(I::Return);
            c.push(I::End);
            c.push(I::I64Const(42));
            results = vec![T::I64];
        }
        23 => {
            // eqz folded into a conditional branch
            c.push(I::I32Eqz);
            c.push(I::BrIf(0));
            c.push(I::Drop);
            c.push(I::I32Const(22));
            c.push(I::End);
        }
        24 => {
            c.push(I::I32Const(-9));
            let f = cx.id3.iter().find(|x| x.0 == t).unwrap().1;
            c.push(I::Call(f));
            results = vec![T::I32, t, T::I64];
        }
        25 => {
            c.push(I::LocalSet(scr(t, 1)));
            c.push(I::LocalGet(scr(t, 1)));
            c.push(I::LocalGet(scr(t, 1)));
            c.push(I::LocalGet(scr(t, 0)));
            results = vec![t, t, t];
        }
        100 => {
            c.push(I::I32Const(1));
            results = vec![T::I32];
        }
        101 => {
            results = vec![T::I64, T::F64, T::I32];
        }
        102 => {
            for (k, p) in ps.iter().enumerate() {
                c.push(I::LocalGet(k as u32));
                results.push(*p);
            }
        }
        _ => {}
    }
    mb.func(Some(name), &ps, &results, &locals, c);
}
/// number of (forms, sink) combinations of an op; more than two operands are sampled
pub fn combos(o: &Op) -> u64 {
    let s = if o.result.is_some() { NS as u64 } else { 3 };
    let f = (NF as u64).pow(o.params.len().min(2) as u32);
    f * s
}
pub fn unrank(r: &mut Rng, o: &Op, mut k: u64) -> (Vec<usize>, usize) {
    let s = if o.result.is_some() { NS as u64 } else { 3 };
    let sink = (k % s) as usize;
    k /= s;
    let mut f = vec![];
    for i in 0..o.params.len() {
        if i < 2 {
            f.push((k % NF as u64) as usize);
            k /= NF as u64;
        } else {
            f.push(r.below(NF));
        }
    }
    (f, sink)
}
pub fn total(ops: &[Op]) -> u64 {
    ops.iter().map(combos).sum()
}
/// two more tables and a passive data segment (after the prelude's active ones)
pub fn extras(mb: &mut MB) {
    mb.tables.push((T::Fn, 12, None));
    mb.tables.push((T::Ex, 5, Some(5)));
    mb.elems.push(El::ActiveExpr { table: 1, off: 2, items: vec![Some(0), None, Some(3), Some(5)] });
    mb.datas.push(Da::Passive((0..100u8).map(|x| x.wrapping_mul(37) | 1).collect()));
}
/// a module with `per` consecutive combinations starting at `from`, and calls with `nv` value tuples
pub fn module(r: &mut Rng, ops: &[Op], from: u64, per: u64, nv: usize, mem: (u32, Option<u32>)) -> (Vec<u8>, Vec<Call>) {
    let mut mb = MB::new();
    let cx = prelude(&mut mb, mem, 1);
    extras(&mut mb);
    let tot = total(ops);
    let mut calls = vec![];
    for j in 0..per {
        let mut k = from + j;
        if k >= tot {
            break;
        }
        let mut oi = 0;
        while k >= combos(&ops[oi]) {
            k -= combos(&ops[oi]);
            oi += 1;
        }
        let (forms, sink) = unrank(r, &ops[oi], k);
        let name = format!("g{}", j);
        function(&mut mb, &cx, r, &ops[oi], &forms, sink, &name, mem.0 > 0);
        let consts = forms.iter().all(|f| matches!(f, 1 | 3));
        for _ in 0..if consts { 1 } else { nv } {
            calls.push(Call { name: name.clone(), args: ops[oi].params.iter().map(|p| (p.0, if p.0.num() { val_for(r, p) } else { 0 })).collect() });
        }
    }
    (mb.finish(), calls)
}
/// every pair of pool values, operands as locals (0), first constant (1), second constant (2), both constant (3)
pub fn pairs(o: &Op, form: u64, pools: [&[u64]; 2]) -> (Vec<u8>, Vec<Call>) {
    let mut mb = MB::new();
    let ps: Vec<T> = o.params.iter().map(|p| p.0).collect();
    let res = [o.result.unwrap()];
    let mut calls = vec![];
    let b: Vec<u64> = if ps.len() > 1 { pools[1].to_vec() } else { vec![0] };
    match form {
        0 => {
            let mut c: Vec<I<'static>> = (0..ps.len() as u32).map(I::LocalGet).collect();
            c.extend(o.code.iter().cloned());
            mb.func(Some("f"), &ps, &res, &[], c);
            for x in pools[0] {
                for y in &b {
                    let mut args = vec![(ps[0], *x)];
                    if ps.len() > 1 {
                        args.push((ps[1], *y));
                    }
                    calls.push(Call { name: "f".into(), args });
                }
            }
        }
        1 | 2 => {
            let (cp, vp) = if form == 1 || ps.len() == 1 { (0, 1) } else { (1, 0) };
            let pool = if cp == 0 { pools[0].to_vec() } else { b.clone() };
            for (i, x) in pool.iter().enumerate() {
                let mut c = vec![];
                for k in 0..ps.len() {
                    c.push(if k == cp { cst(ps[k], *x) } else { I::LocalGet(0) });
                }
                c.extend(o.code.iter().cloned());
                let name = format!("f{}", i);
                if ps.len() == 1 {
                    mb.func(Some(&name), &[], &res, &[], c);
                    calls.push(Call { name, args: vec![] });
                } else {
                    mb.func(Some(&name), &[ps[vp]], &res, &[], c);
                    for y in if vp == 0 { pools[0] } else { &b } {
                        calls.push(Call { name: name.clone(), args: vec![(ps[vp], *y)] });
                    }
                }
            }
        }
        _ => {
            let mut n = 0;
            for x in pools[0] {
                for y in &b {
                    let mut c = vec![cst(ps[0], *x)];
                    if ps.len() > 1 {
                        c.push(cst(ps[1], *y));
                    }
                    c.extend(o.code.iter().cloned());
                    let name = format!("f{}", n);
                    n += 1;
                    mb.func(Some(&name), &[], &res, &[], c);
                    calls.push(Call { name, args: vec![] });
                }
            }
        }
    }
    (mb.finish(), calls)
}
pub fn pool(t: T) -> Vec<u64> {
    match t {
        T::I32 => I32S.iter().map(|x| *x as u32 as u64).collect(),
        T::I64 => I64S.iter().map(|x| *x as u64).collect(),
        T::F32 => F32S.iter().map(|x| *x as u64).collect(),
        T::F64 => F64S.to_vec(),
        _ => vec![0],
    }
}
#[allow(dead_code)]
pub fn nullref(t: T) -> I<'static> {
    I::RefNull(if t == T::Fn { HeapType::FUNC } else { HeapType::EXTERN })
}

fn op_n(code: Vec<I<'static>>, params: Vec<(T, Vec<u64>)>, result: Option<T>) -> Op {
    Op { code, params, result }
}
pub fn select_ops() -> Vec<Op> {
    let c = vec![0, 1, 2, 0xffffffff, 0x80000000];
    let mut v = vec![];
    for t in ALL {
        if t.num() {
            v.push(op_n(vec![I::Select], vec![(t, vec![]), (t, vec![]), (T::I32, c.clone())], Some(t)));
        }
        v.push(op_n(vec![I::TypedSelect(t.vt())], vec![(t, vec![]), (t, vec![]), (T::I32, c.clone())], Some(t)));
    }
    v
}
/// bulk memory operations; data segment 0 is active (so dropped), `seg` is passive
pub fn bulk_ops(addr: Vec<u64>, len: Vec<u64>, seg: u32, src: Vec<u64>) -> Vec<Op> {
    let i = |v: &Vec<u64>| (T::I32, v.clone());
    let byte = (T::I32, vec![0, 1, 0xab, 0x1ff, 0xffffffff]);
    vec![
        op_n(vec![I::MemoryFill(0)], vec![i(&addr), byte, i(&len)], None),
        op_n(vec![I::MemoryCopy { src_mem: 0, dst_mem: 0 }], vec![i(&addr), i(&addr), i(&len)], None),
        op_n(vec![I::MemoryInit { mem: 0, data_index: seg }], vec![i(&addr), i(&src), i(&len)], None),
        op_n(vec![I::MemoryInit { mem: 0, data_index: 0 }], vec![i(&addr), i(&src), i(&len)], None),
    ]
}
pub fn size_ops(delta: Vec<u64>) -> Vec<Op> {
    vec![
        op_n(vec![I::MemoryGrow(0)], vec![(T::I32, delta.clone())], Some(T::I32)),
        op_n(vec![I::MemorySize(0)], vec![], Some(T::I32)),
        op_n(vec![I::MemoryGrow(0), I::Drop, I::MemorySize(0)], vec![(T::I32, delta)], Some(T::I32)),
    ]
}
/// the prelude's table 0 holds 8 functions; table 1 is another function table, table 2 holds externrefs
pub fn table_ops() -> Vec<Op> {
    let mut v = vec![];
    for (t, k, n) in [(T::Fn, 1u32, 12u64), (T::Fn, 0, 8), (T::Ex, 2, 5)] {
        let at = vec![0, 1, 3, n - 2, n - 1, n, n + 1, 0xffffffff, 0x80000000];
        let ok = vec![0, 1, 2, n - 2, n - 1];
        // table 0 serves the other forms: only its spare slots may change
        let set = if k == 0 { vec![6, 7, 8, 0xffffffff] } else { at.clone() };
        let len = if k == 0 { vec![0, 1, 2, 3] } else { vec![0, 1, 2, n - 1, n, n + 1, 0xffffffff] };
        v.push(op_n(vec![I::TableGet(k)], vec![(T::I32, at.clone())], Some(t)));
        v.push(op_n(vec![I::TableGet(k)], vec![(T::I32, ok)], Some(t)));
        v.push(op_n(vec![I::TableGet(k), I::RefIsNull], vec![(T::I32, at)], Some(T::I32)));
        v.push(op_n(vec![I::TableSet(k)], vec![(T::I32, set.clone()), (t, vec![])], None));
        v.push(op_n(vec![I::TableFill(k)], vec![(T::I32, set), (t, vec![]), (T::I32, len)], None));
        v.push(op_n(vec![I::RefIsNull], vec![(t, vec![])], Some(T::I32)));
        v.push(op_n(vec![], vec![(t, vec![])], Some(t)));
    }
    v
}
