//! Modules beyond 2^16 of something: globals, functions, types, table entries, segments, locals, labels,
//! branch targets, instructions, pending operands, frames.
use crate::chk::*;
use crate::gen::*;
use crate::hostmodel::HostModel;
use crate::mb::*;
use crate::props::lockstep;
use crate::rng::Rng;
use crate::shape::M;
use wasm_encoder::BlockType;
use wasm_encoder::Instruction as I;

fn i32c(x: i64) -> I<'static> {
    I::I32Const(x as i32)
}
fn call(name: &str, args: Vec<(T, u64)>) -> Call {
    Call { name: name.into(), args }
}
/// how many, a little or clearly beyond 2^16
fn count(r: &mut Rng) -> usize {
    match r.below(3) {
        0 => 65536 + r.range(1, 5),
        1 => 65536 + r.range(250, 270),
        _ => r.range(66_000, 70_000),
    }
}
/// indices around every power of two a narrower index would wrap at
fn picks(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v: Vec<usize> = vec![0, 1, 2, 127, 128, 255, 256, 257, 16383, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, n - 1, n - 2];
    for _ in 0..6 {
        v.push(r.below(n));
    }
    v.retain(|x| *x < n);
    v.sort();
    v.dedup();
    v.into_iter().map(|x| x as u32).collect()
}
fn acc(t: T) -> Vec<I<'static>> {
    // i64 on the stack below, t on top: mix into one i64
    let mut c = match t {
        T::I32 => vec![I::I64ExtendI32U],
        T::I64 => vec![],
        T::F32 => vec![I::I32ReinterpretF32, I::I64ExtendI32U],
        T::F64 => vec![I::I64ReinterpretF64],
        _ => vec![I::RefIsNull, I::I64ExtendI32U],
    };
    c.extend([I::I64Add, I::I64Const(0x9e3779b97f4a7c15u64 as i64), I::I64Mul, I::I64Const(23), I::I64Rotl]);
    c
}
/// an i64 on the stack becomes a t
fn conv(t: T) -> Vec<I<'static>> {
    match t {
        T::I32 => vec![I::I32WrapI64],
        T::I64 => vec![],
        T::F32 => vec![I::I32WrapI64, i32c(0x3fff_ffff), I::I32And, I::F32ReinterpretI32],
        _ => vec![I::I64Const(0x3fff_ffff_ffff_ffff), I::I64And, I::F64ReinterpretI64],
    }
}
const NT: [T; 4] = [T::I32, T::I64, T::F32, T::F64];

pub fn globals_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let n = count(r);
    let mut mb = MB::new();
    let (a, b) = (r.range(1, 6), r.range(1, 5));
    for i in 0..n {
        let t = NT[(i / a + i / b) % 4];
        mb.global(t, true, if t == T::I32 || t == T::F32 { i as u64 & 0x3fff_ffff } else { i as u64 * 3 });
    }
    let ks = picks(r, n);
    let mut rd = vec![I::I64Const(1)];
    for k in &ks {
        rd.push(I::GlobalGet(*k));
        rd.extend(acc(mb.globals[*k as usize].0));
    }
    mb.func(Some("all"), &[], &[T::I64], &[], rd.clone());
    let mut wr = vec![];
    for k in &ks {
        wr.extend([I::LocalGet(0), I::I64Const(*k as i64 * 77), I::I64Xor]);
        wr.extend(conv(mb.globals[*k as usize].0));
        wr.push(I::GlobalSet(*k));
    }
    wr.extend(rd);
    mb.func(Some("set"), &[T::I64], &[T::I64], &[], wr);
    // each on its own, in the order of a shuffled list
    let mut one = vec![];
    for w in ks.windows(2) {
        if mb.globals[w[0] as usize].0 == mb.globals[w[1] as usize].0 {
            one.extend([I::GlobalGet(w[0]), I::GlobalGet(w[1]), I::GlobalSet(w[0]), I::GlobalSet(w[1])]);
        }
    }
    one.push(I::I64Const(0));
    mb.func(Some("swap"), &[], &[T::I64], &[], one);
    let x = r.u64();
    (mb.finish(), vec![call("all", vec![]), call("set", vec![(T::I64, x)]), call("swap", vec![]), call("all", vec![])])
}

/// many functions, types and table entries
pub fn funcs_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let n = count(r);
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    if r.chance(1, 2) {
        for _ in 0..65536 + r.range(1, 300) {
            mb.types.push((vec![T::F32, T::F32, T::F64], vec![]));
        }
    }
    let m = r.u64() as i64 | 1;
    for i in 0..n {
        mb.func(None, &[], &[T::I64], &[], vec![I::I64Const((i as i64 + 1).wrapping_mul(m))]);
    }
    let extra = r.range(0, 300) as u32;
    let tn = n as u32 + extra;
    mb.tables.push((T::Fn, tn, Some(tn)));
    if r.chance(1, 2) {
        mb.elems.push(El::Active { table: None, off: 0, funcs: (0..n as u32).collect() });
    } else {
        let k = r.range(60_000, 65_600).min(n);
        mb.elems.push(El::Active { table: None, off: k as i32, funcs: (k as u32..n as u32).collect() });
        mb.elems.push(El::Active { table: None, off: 0, funcs: (0..k as u32).collect() });
    }
    let ks = picks(r, n);
    let ty = mb.ty(&[], &[T::I64]);
    let mut d = vec![I::I64Const(3)];
    for k in &ks {
        d.push(I::Call(*k));
        d.extend(acc(T::I64));
    }
    mb.func(Some("direct"), &[], &[T::I64], &[], d);
    mb.func(Some("ind"), &[T::I32], &[T::I64], &[], vec![I::LocalGet(0), I::CallIndirect { type_index: ty, table_index: 0 }]);
    mb.func(Some("set"), &[T::I32, T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::LocalGet(1), I::TableGet(0), I::TableSet(0), I::LocalGet(0), I::TableGet(0), I::RefIsNull]);
    mb.func(Some("null"), &[T::I32, T::I32], &[T::I32], &[], vec![
        I::LocalGet(0), I::RefNull(wasm_encoder::HeapType::FUNC), I::LocalGet(1), I::TableFill(0), i32c(7),
    ]);
    let k = |r: &mut Rng| *r.pick(&ks) as u64;
    let mut calls = vec![call("direct", vec![])];
    for _ in 0..5 {
        let x = k(r);
        calls.push(call("ind", vec![(T::I32, x)]));
    }
    for _ in 0..3 {
        let (x, y) = (k(r), k(r));
        calls.push(call("set", vec![(T::I32, x), (T::I32, y)]));
        calls.push(call("ind", vec![(T::I32, x)]));
    }
    let x = k(r);
    let len = r.below(5).min(n - x as usize) as u64;
    calls.push(call("null", vec![(T::I32, x), (T::I32, len)]));
    let y = (x + len).min(n as u64 - 1);
    calls.push(call("set", vec![(T::I32, 3), (T::I32, y)]));
    (mb.finish(), calls)
}

pub fn locals_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    // the validator allows 50000
    let n = *r.pick(&[33_000usize, 40_000, 49_990]);
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let mut locals = vec![];
    let mut t = r.below(4);
    while locals.len() < n {
        let k = match r.below(3) {
            0 => 1,
            1 => r.range(2, 300),
            _ => r.range(1000, 20_000),
        };
        for _ in 0..k.min(n - locals.len()) {
            locals.push(NT[t]);
        }
        t = (t + 1 + r.below(3)) % 4;
    }
    let p = vec![T::I64, T::I32];
    let all: Vec<T> = p.iter().chain(&locals).copied().collect();
    let ks: Vec<u32> = picks(r, all.len()).into_iter().filter(|x| *x > 1).collect();
    let mut c = vec![];
    for k in &ks {
        let t = all[*k as usize];
        c.extend([I::LocalGet(0), I::I64Const(*k as i64 * 31), I::I64Add]);
        c.extend(conv(t));
        if r.chance(1, 2) {
            c.push(I::LocalSet(*k));
        } else {
            c.extend([I::LocalTee(*k), I::Drop]);
        }
    }
    for w in ks.windows(2) {
        let (a, b) = (w[0], w[1]);
        if all[a as usize] != all[b as usize] {
            continue;
        }
        c.extend([I::LocalGet(a), I::LocalGet(b)]);
        c.push(match all[a as usize] {
            T::I32 => I::I32Add,
            T::I64 => I::I64Xor,
            T::F32 => I::F32Min,
            _ => I::F64Max,
        });
        c.push(I::LocalSet(b));
    }
    let mut i = vec![I::I64Const(9)];
    for k in &ks {
        i.push(I::LocalGet(*k));
        i.extend(acc(all[*k as usize]));
    }
    c.extend(i);
    let call_self = r.chance(1, 2);
    if call_self {
        // the locals of an inner activation are its own
        let b = mb.bt(&[T::I64], &[T::I64]);
        c.extend([I::LocalGet(1), I::If(b), I::LocalGet(0), I::I64Const(5), I::I64Mul, I::LocalGet(1), i32c(1), I::I32Sub, I::Call(0), I::I64Add]);
        for k in &ks {
            c.push(I::LocalGet(*k));
            c.extend(acc(all[*k as usize]));
        }
        c.push(I::End);
    }
    mb.func(Some("f"), &p, &[T::I64], &locals, c);
    let (x, d) = (r.u64(), r.below(3) as u64);
    (mb.finish(), vec![call("f", vec![(T::I64, x), (T::I32, d)]), call("f", vec![(T::I64, x ^ 99), (T::I32, 0)])])
}

pub fn segments_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let n = count(r);
    let mut mb = MB::new();
    mb.mem = Some((3, Some(3)));
    let passive = r.chance(2, 3);
    let m = r.range(1, 250);
    for i in 0..n {
        let b = vec![(i * m + i / 256) as u8, (i >> 8) as u8 ^ 0x55, i as u8];
        mb.datas.push(if passive || i % 1000 == 5 { Da::Passive(b) } else { Da::Active((i * 2) as i32, b) });
    }
    let ks: Vec<u32> = picks(r, n).into_iter().filter(|k| matches!(mb.datas[*k as usize], Da::Passive(_)) || r.chance(1, 4)).collect();
    let mut calls = vec![];
    for (j, k) in ks.iter().enumerate() {
        let at = 150_000 + j as i64 * 4;
        let mut c = vec![i32c(at), i32c(0), I::LocalGet(0), I::MemoryInit { mem: 0, data_index: *k }];
        c.extend([i32c(at), I::I32Load(ma(0, 0))]);
        let name = format!("i{}", k);
        mb.func(Some(&name), &[T::I32], &[T::I32], &[], c);
        let name2 = format!("d{}", k);
        mb.func(Some(&name2), &[], &[T::I32], &[], vec![I::DataDrop(*k), i32c(1)]);
    }
    let mut names: Vec<u32> = ks.clone();
    for i in (1..names.len()).rev() {
        names.swap(i, r.below(i + 1));
    }
    for k in names.iter().take(8) {
        calls.push(call(&format!("i{}", k), vec![(T::I32, 3)]));
    }
    for k in names.iter().take(3) {
        calls.push(call(&format!("d{}", k), vec![]));
    }
    for k in names.iter().take(8) {
        let l = r.range(0, 3) as u64;
        calls.push(call(&format!("i{}", k), vec![(T::I32, l)]));
    }
    if calls.is_empty() {
        mb.func(Some("x"), &[], &[T::I32], &[], vec![i32c(0), I::I32Load(ma(131_000, 0))]);
        calls.push(call("x", vec![]));
    }
    (mb.finish(), calls)
}

/// more than 2^16 branch targets
pub fn targets_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let n = count(r).min(65536 + 5000);
    let mut mb = MB::new();
    let nl = r.range(2, 7) as u32;
    let val = r.chance(1, 2);
    let bt = if val { BlockType::Result(T::I64.vt()) } else { BlockType::Empty };
    let mut c = vec![];
    for _ in 0..nl {
        c.push(I::Block(bt));
    }
    if val {
        c.push(I::LocalGet(1));
    }
    let s = r.range(1, 9) as u32;
    let targets: Vec<u32> = (0..n as u32).map(|i| (i.wrapping_mul(s) / 3 + i / 65536) % nl).collect();
    c.push(I::LocalGet(0));
    c.push(I::BrTable(targets.into(), r.below(nl as usize) as u32));
    for j in 0..nl as i64 {
        c.push(I::End);
        if val {
            c.push(I::LocalSet(2));
        }
        c.extend([I::LocalGet(2), I::I64Const(j + 2), I::I64Mul, I::I64Const(7 + j), I::I64Add]);
        if !val || j == nl as i64 - 1 {
            c.push(I::LocalSet(2));
        }
    }
    c.push(I::LocalGet(2));
    mb.func(Some("f"), &[T::I32, T::I64], &[T::I64], &[T::I64], c);
    let mut calls = vec![];
    for x in [0u64, 1, 255, 256, 65534, 65535, 65536, 65537, n as u64 - 1, n as u64, n as u64 + 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000 + r.below(n - 65536) as u64] {
        let y = r.u64();
        calls.push(call("f", vec![(T::I32, x), (T::I64, y)]));
    }
    (mb.finish(), calls)
}

fn fill(r: &mut Rng, n: usize, c: &mut Vec<I<'static>>) {
    // every line stays one instruction after translation: they depend on each other
    let k = r.range(1, 1000) as i64;
    for i in 0..n as i64 {
        c.extend([I::LocalGet(1), I::I64Const(i * 5 + k)]);
        c.push(match i % 3 {
            0 => I::I64Add,
            1 => I::I64Xor,
            _ => I::I64Mul,
        });
        c.push(I::LocalSet(1));
    }
}
/// jumps over more than 2^16 instructions
pub fn long_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let mut c = vec![];
    let n = count(r);
    // params: which (i32), acc (i64); locals: counter
    let parts = r.range(1, 2);
    if r.chance(1, 2) {
        let k = r.range(1, 40_000);
        fill(r, k, &mut c);
    }
    for p in 0..parts {
        match r.below(5) {
            0 => {
                c.push(I::Block(BlockType::Empty));
                c.extend([I::LocalGet(0), i32c(1), I::I32And, I::BrIf(0)]);
                fill(r, n, &mut c);
                c.push(I::End);
            }
            1 => {
                c.extend([I::LocalGet(0), i32c(2), I::I32And, I::If(BlockType::Empty)]);
                fill(r, n, &mut c);
                c.push(I::Else);
                fill(r, n - 20, &mut c);
                c.push(I::End);
            }
            2 => {
                c.extend([i32c(0), I::LocalSet(2)]);
                c.push(I::Loop(BlockType::Empty));
                fill(r, n, &mut c);
                c.extend([I::LocalGet(2), i32c(1), I::I32Add, I::LocalTee(2), i32c(3), I::I32LtU, I::LocalGet(0), i32c(3), I::I32And, I::I32And, I::BrIf(0)]);
                c.push(I::End);
            }
            3 => {
                c.extend([I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::Block(BlockType::Empty)]);
                c.extend([I::LocalGet(0), I::BrTable(vec![0, 1, 2, 1].into(), 2)]);
                c.push(I::End);
                fill(r, n / 2, &mut c);
                c.push(I::End);
                fill(r, n, &mut c);
                c.push(I::End);
            }
            _ => {
                let b = mb.bt(&[T::I64], &[T::I64]);
                c.extend([I::LocalGet(1), I::Block(b), I::LocalGet(0), i32c(1), I::I32And, I::BrIf(0), I::LocalSet(1)]);
                fill(r, n, &mut c);
                c.extend([I::LocalGet(1), I::LocalGet(0), I::I32Eqz, I::BrIf(0), I::I64Const(p as i64 + 5), I::I64Add, I::End, I::LocalSet(1)]);
            }
        }
    }
    c.extend([I::LocalGet(0), i32c(4), I::I32And, I::If(BlockType::Empty), I::LocalGet(1), I::Return, I::End]);
    c.extend([I::LocalGet(1), I::I64Const(1), I::I64Add]);
    mb.func(Some("f"), &[T::I32, T::I64], &[T::I64], &[T::I32], c);
    let mut calls = vec![];
    for x in 0..5 {
        let y = r.u64();
        calls.push(call("f", vec![(T::I32, x), (T::I64, y)]));
    }
    (mb.finish(), calls)
}

/// labels more than 2^16 deep
pub fn nest_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let n = count(r);
    let period = r.range(900, 5000);
    let val = r.chance(1, 2);
    let bt = if val { BlockType::Result(T::I64.vt()) } else { BlockType::Empty };
    let mut c = vec![];
    let mut at = vec![];
    for i in 0..n {
        match i % 7 {
            3 if !val => c.push(I::Loop(BlockType::Empty)),
            5 if !val => c.extend([i32c(1), I::If(BlockType::Empty)]),
            _ => c.push(I::Block(bt)),
        }
    }
    // leave by one of a few depths, chosen by the parameter
    let mut ds: Vec<u32> = vec![0, 1, 255, 256, 32767, 32768, 65534, 65535, 65536, n as u32 - 1, n as u32 - 2];
    ds.retain(|d| (*d as usize) < n && (val || (n - 1 - *d as usize) % 7 != 3));
    if val {
        c.push(I::LocalGet(1));
    }
    c.push(I::LocalGet(0));
    if r.chance(1, 2) {
        let last = ds[ds.len() - 1];
        c.push(I::BrTable(ds.clone().into(), last));
    } else {
        for (i, d) in ds.iter().enumerate() {
            if val {
                c.push(I::LocalSet(2));
                c.push(I::Drop);
                c.push(I::LocalGet(1));
                c.push(I::LocalGet(0));
            }
            c.extend([i32c(i as i64), I::I32Eq, I::BrIf(*d), I::LocalGet(0)]);
            at.push(i);
        }
        c.push(I::Drop);
        if val {
            c.push(I::Drop);
            c.push(I::LocalGet(1));
        }
    }
    for i in 0..n {
        c.push(I::End);
        if i % period == 0 || i == n - 1 {
            if val {
                c.extend([I::I64Const(31), I::I64Mul, I::I64Const(i as i64), I::I64Add]);
            } else {
                c.extend([I::LocalGet(1), I::I64Const(31), I::I64Mul, I::I64Const(i as i64), I::I64Add, I::LocalSet(1)]);
            }
        }
    }
    if !val {
        c.push(I::LocalGet(1));
    }
    mb.func(Some("f"), &[T::I32, T::I64], &[T::I64], &[T::I32], c);
    let mut calls = vec![];
    for x in 0..ds.len() as u64 + 1 {
        let y = r.u64();
        calls.push(call("f", vec![(T::I32, x), (T::I64, y)]));
    }
    (mb.finish(), calls)
}

/// 2^16 pending operands, a few less or more
pub fn deep_m(cx: &mut Cx) -> (Vec<u8>, Vec<Call>, usize) {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let n = match r.below(4) {
        0 => 65_536 - r.range(0, 3),
        1 => r.range(33_000, 65_000),
        2 => 65_536 + r.range(1, 3),
        _ => r.range(66_000, 70_000),
    };
    let t = *r.pick(&NT);
    let p = match t {
        T::I32 => vec![T::I32],
        T::I64 => vec![T::I64],
        T::F32 => vec![T::F32],
        _ => vec![T::F64],
    };
    // one computed value after the other, then all of them combined from the top
    let mut c = vec![];
    for i in 0..n {
        c.push(I::LocalGet(0));
        match t {
            T::I32 => c.extend([i32c(i as i64), I::I32Add]),
            T::I64 => c.extend([I::I64Const(i as i64 * 3), I::I64Add]),
            T::F32 => c.extend([I::F32Const(i as f32), I::F32Add]),
            _ => c.extend([I::F64Const(i as f64), I::F64Add]),
        }
    }
    for i in 0..n - 1 {
        c.push(match (t, i % 2) {
            (T::I32, 0) => I::I32Sub,
            (T::I32, _) => I::I32Xor,
            (T::I64, 0) => I::I64Sub,
            (T::I64, _) => I::I64Xor,
            (T::F32, 0) => I::F32Sub,
            (T::F32, _) => I::F32Add,
            (_, 0) => I::F64Sub,
            (_, _) => I::F64Add,
        });
    }
    mb.func(Some("f"), &p, &[t], &[], c);
    let mut calls = vec![];
    for _ in 0..2 {
        let x = r.below(1000) as u64;
        let b = match t {
            T::F32 => (x as f32).to_bits() as u64,
            T::F64 => (x as f64).to_bits(),
            _ => x,
        };
        calls.push(call("f", vec![(t, b)]));
    }
    (mb.finish(), calls, n + 1)
}

/// more than 2^16 activations, each with values of its own
pub fn frames_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let t = *r.pick(&NT);
    // f(n, x) = n == 0 ? x : mix(x, f(n - 1, x * k)) with operands pending at the call
    let ps = [T::I32, T::I64];
    let b = mb.bt(&[], &[T::I64]);
    let ty = mb.ty(&ps, &[T::I64]);
    let mut c = vec![I::LocalGet(1), I::LocalGet(0), I::I64ExtendI32U, I::I64Sub];
    c.extend(conv(t));
    c.push(I::LocalSet(2));
    c.extend([I::LocalGet(0), I::If(b)]);
    c.extend([I::LocalGet(1), I::I64Const(13), I::I64Rotl]); // pending
    c.extend([I::LocalGet(2), I::LocalGet(2)]);
    c.push(match t {
        T::I32 => I::I32Add,
        T::I64 => I::I64Add,
        T::F32 => I::F32Add,
        _ => I::F64Add,
    }); // pending
    c.extend([I::LocalGet(0), i32c(1), I::I32Sub, I::LocalGet(1), I::I64Const(0x5851f42d4c957f2d), I::I64Mul]);
    if r.chance(1, 3) {
        mb.tables.push((T::Fn, 1, Some(1)));
        mb.elems.push(El::Active { table: None, off: 0, funcs: vec![0] });
        c.extend([i32c(0), I::CallIndirect { type_index: ty, table_index: 0 }]);
    } else {
        c.push(I::Call(0));
    }
    c.push(I::LocalSet(3));
    c.extend(acc(t));
    c.extend([I::LocalGet(3), I::I64Xor]);
    c.extend([I::Else, I::LocalGet(1), I::End]);
    mb.func(Some("f"), &ps, &[T::I64], &[t, T::I64], c);
    let (n, x) = (count(r) as u64, r.u64());
    (mb.finish(), vec![call("f", vec![(T::I32, n), (T::I64, x)]), call("f", vec![(T::I32, 3), (T::I64, x)])])
}
/// memories of hundreds and thousands of pages, data segments of more than 2^16 bytes
pub fn pages_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let min = match r.below(6) {
        0 => *r.pick(&[4095u32, 4096, 4097]),
        1 => *r.pick(&[1023u32, 1024, 1025]),
        _ => *r.pick(&[255u32, 256, 257, 300, 511, 513]),
    };
    let max = min + *r.pick(&[0u32, 1, 2, 3, 300]);
    mb.mem = Some((min, if r.chance(1, 2) { Some(max) } else { None }));
    let seg = *r.pick(&[65_535usize, 65_536, 65_537, 70_001, 131_073, 300_000]);
    let k = r.u32() | 1;
    let img = |k: u32| (0..seg as u32).map(|i| (i.wrapping_mul(k) >> 13) as u8).collect::<Vec<u8>>();
    mb.datas.push(Da::Passive(img(k)));
    let at = r.below(min as usize * 65536 - seg) as i32;
    mb.datas.push(Da::Active(at, img(k ^ 0x55aa)));
    let (a, b) = ([T::I32, T::I64], [T::I32, T::I32, T::I32]);
    mb.func(Some("put"), &a, &[T::I32], &[], vec![I::LocalGet(0), I::LocalGet(1), I::I64Store(ma(0, 0)), I::MemorySize(0)]);
    mb.func(Some("get"), &[T::I32], &[T::I64], &[], vec![I::LocalGet(0), I::I64Load(ma(0, 0))]);
    mb.func(Some("far"), &a, &[T::I64], &[], vec![I::LocalGet(0), I::LocalGet(1), I::I64Store(ma(0x0100_0000, 0)), I::LocalGet(0), I::I64Load(ma(0x00ff_fff9, 0))]);
    mb.func(Some("grow"), &[T::I32], &[T::I32, T::I32], &[], vec![I::LocalGet(0), I::MemoryGrow(0), I::MemorySize(0)]);
    mb.func(Some("copy"), &b, &[T::I32], &[], vec![I::LocalGet(0), I::LocalGet(1), I::LocalGet(2), I::MemoryCopy { src_mem: 0, dst_mem: 0 }, i32c(1)]);
    mb.func(Some("fill"), &b, &[T::I32], &[], vec![I::LocalGet(0), I::LocalGet(1), I::LocalGet(2), I::MemoryFill(0), i32c(2)]);
    mb.func(Some("init"), &b, &[T::I32], &[], vec![I::LocalGet(0), I::LocalGet(1), I::LocalGet(2), I::MemoryInit { mem: 0, data_index: 0 }, i32c(3)]);
    let end = min as u64 * 65536;
    let mut calls = vec![];
    let pos = |r: &mut Rng, n: u64| -> u64 {
        let m = end - n;
        match r.below(5) {
            0 => m,
            1 => (1u64 << r.range(16, 28)).min(m),
            2 => (1u64 << r.range(16, 28)).saturating_sub(r.below(9) as u64).min(m),
            _ => r.below(m as usize + 1) as u64,
        }
    };
    for _ in 0..10 {
        match r.below(8) {
            0 | 1 => {
                let (x, y) = (pos(r, 8), r.u64());
                calls.push(call("put", vec![(T::I32, x), (T::I64, y)]));
            }
            2 => {
                let x = pos(r, 8);
                calls.push(call("get", vec![(T::I32, x)]));
            }
            3 => {
                let x = (1 + r.below(3)) as u64;
                calls.push(call("grow", vec![(T::I32, x)]));
            }
            4 => {
                let n = match r.below(3) {
                    0 => r.below(70_000) as u64,
                    1 => (1u64 << r.range(16, 27)).min(end / 2),
                    _ => r.below(end as usize) as u64,
                };
                let (x, y) = (pos(r, n), pos(r, n));
                calls.push(call("copy", vec![(T::I32, x), (T::I32, y), (T::I32, n)]));
            }
            5 => {
                let n = if r.chance(1, 2) { r.below(end as usize) as u64 } else { r.below(140_000) as u64 };
                let (x, y) = (pos(r, n), r.below(512) as u64);
                calls.push(call("fill", vec![(T::I32, x), (T::I32, y), (T::I32, n)]));
            }
            6 => {
                let n = r.below(seg + 1) as u64;
                let o = r.below(seg + 1 - n as usize) as u64;
                let x = pos(r, n);
                calls.push(call("init", vec![(T::I32, x), (T::I32, o), (T::I32, n)]));
            }
            _ => {
                let (x, y) = (r.below((end - 0x100_0000 + 9).min(end) as usize) as u64, r.u64());
                if end > 0x100_0008 {
                    calls.push(call("far", vec![(T::I32, x), (T::I64, y)]));
                }
            }
        }
    }
    (mb.finish(), calls)
}
pub fn deep<R>(f: impl FnOnce() -> R) -> R {
    crate::exec::DEPTH.with(|d| d.set(100_000));
    crate::ckpt::CHAIN.with(|d| d.set(8));
    let r = f();
    crate::exec::DEPTH.with(|d| d.set(400));
    crate::ckpt::CHAIN.with(|d| d.set(40));
    r
}

macro_rules! alone {
    ($($n:ident $m:ident),*) => { $(pub fn $n(cx: &mut Cx) -> V {
        let (w, c) = $m(cx);
        deep(|| lockstep(cx, &w, &c))
    })* };
}
alone!(globals globals_m, funcs funcs_m, locals locals_m, segments segments_m, targets targets_m, long long_m, nest nest_m, frames frames_m, pages pages_m);

/// a function that needs more operands of a type than there are registers may be refused, any other must run
pub fn operands(cx: &mut Cx) -> V {
    let (w, c, n) = deep_m(cx);
    match lockstep(cx, &w, &c) {
        V::Bad(s) if n > 65_536 && s.contains("not instantiated") && s.contains("Unsupported") => {
            cx.add("functions refused for their number of operands", 1);
            V::Ok
        }
        v => v,
    }
}
/// large functions load in time proportional to their size (the driver ends a case after 40 s)
pub fn scaling(cx: &mut Cx) -> V {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let n = r.range(100_000, 150_000);
    let mut c = vec![];
    let mut locals = vec![T::I64];
    match cx.idx % 8 {
        0 => {
            c.push(I::Block(BlockType::Empty));
            for _ in 0..n * 2 {
                c.extend([I::LocalGet(0), I::BrIf(0)]);
            }
            c.push(I::End);
        }
        1 => {
            for _ in 0..n {
                c.extend([I::LocalGet(0), I::If(BlockType::Empty), I::LocalGet(1), I::I64Const(3), I::I64Add, I::LocalSet(1), I::Else, I::Nop, I::End]);
            }
        }
        2 => {
            for _ in 0..n {
                c.extend([I::Block(BlockType::Empty), I::LocalGet(0), I::BrTable(vec![0].into(), 0), I::End]);
            }
        }
        3 => {
            for i in 0..n {
                c.push(if i % 2 == 0 { I::Block(BlockType::Empty) } else { I::Loop(BlockType::Empty) });
                if i % 10 == 0 {
                    c.extend([I::LocalGet(0), I::BrIf((i as u32).min(7) & !1)]);
                }
            }
            c.extend((0..n).map(|_| I::End));
        }
        4 => {
            // branches to function level and returns
            for i in 0..n {
                c.extend([I::LocalGet(1), I::LocalGet(0)]);
                c.push(I::BrIf(0));
                c.push(I::Drop);
                if i % 4 == 0 {
                    c.extend([I::LocalGet(0), I::If(BlockType::Empty), I::LocalGet(1), I::Return, I::End]);
                }
            }
        }
        5 => {
            // runs of locals
            locals.extend((0..6000).map(|i| NT[i % 4]));
            for i in 0..n * 2 {
                let k = 3 + (i as u32 * 7) % 1500 * 4;
                c.extend([I::LocalGet(k), I::LocalSet(k)]);
            }
        }
        6 => {
            let b = mb.bt(&[T::I64, T::I32], &[T::I32, T::I64]);
            for _ in 0..n / 2 {
                c.extend([I::LocalGet(1), I::LocalGet(0), I::Block(b), I::Drop, I::Drop, I::LocalGet(0), I::LocalGet(1), I::LocalGet(0), I::BrIf(0), I::End, I::LocalSet(1), I::Drop]);
            }
        }
        _ => {
            for i in 0..n {
                mb.global(T::I64, true, i as u64);
            }
            for i in 0..n {
                c.extend([I::GlobalGet(i as u32), I::LocalGet(1), I::I64Xor, I::GlobalSet((n - 1 - i) as u32)]);
            }
        }
    }
    c.push(I::LocalGet(1));
    mb.func(Some("f"), &[T::I32, T::I64], &[T::I64], &locals, c);
    let (w, x) = (mb.finish(), r.u64());
    cx.add("bytes of large functions loaded", w.len() as u64);
    lockstep(cx, &w, &[call("f", vec![(T::I32, 0), (T::I64, x)])])
}
/// C04
pub fn control(cx: &mut Cx) -> V {
    match cx.idx % 3 {
        0 => targets(cx),
        1 => long(cx),
        _ => nest(cx),
    }
}
/// C05
pub fn calls(cx: &mut Cx) -> V {
    match cx.idx % 2 {
        0 => funcs(cx),
        _ => frames(cx),
    }
}
/// C06
pub fn memory(cx: &mut Cx) -> V {
    match cx.idx % 3 {
        0 => segments(cx),
        _ => pages(cx),
    }
}
/// C11
pub fn values(cx: &mut Cx) -> V {
    match cx.idx % 3 {
        0 => locals(cx),
        _ => operands(cx),
    }
}
/// C13
pub fn declared(cx: &mut Cx) -> V {
    match cx.idx % 4 {
        0 => segments(cx),
        1 => globals(cx),
        2 => funcs(cx),
        _ => pages(cx),
    }
}
/// C25
pub fn loading(cx: &mut Cx) -> V {
    match cx.idx % 3 {
        0 => operands(cx),
        _ => {
            let i = cx.idx;
            cx.idx = i / 3 * 2 + i % 3 - 1;
            let v = scaling(cx);
            cx.idx = i;
            v
        }
    }
}
fn any_m(cx: &mut Cx) -> M {
    match cx.idx % 9 {
        0 => globals_m(cx),
        1 => funcs_m(cx),
        2 => locals_m(cx),
        3 => segments_m(cx),
        4 => targets_m(cx),
        5 => long_m(cx),
        6 => nest_m(cx),
        7 => pages_m(cx),
        _ => frames_m(cx),
    }
}
fn stored_m(cx: &mut Cx) -> M {
    match cx.idx % 2 {
        0 => funcs_m(cx),
        _ => segments_m(cx),
    }
}
/// a module and its first calls
pub fn few(cx: &mut Cx, n: usize) -> M {
    let (w, mut c) = any_m(cx);
    c.truncate(n);
    (w, c)
}
/// C14: one image
pub fn image(cx: &mut Cx) -> V {
    let (w, c) = few(cx, 4);
    deep(|| crate::ckpt::single(cx, &w, &c, &HostModel::new(1), 5_000_000, 4))
}
/// C15
pub fn images(cx: &mut Cx) -> V {
    let (w, c) = few(cx, 3);
    deep(|| crate::ckpt::chain(cx, &w, &c, &HostModel::new(1), 5_000_000, 1))
}
/// C17
pub fn stored(cx: &mut Cx) -> V {
    let (w, mut c) = stored_m(cx);
    let k = cx.r.below(c.len());
    c = c[k..c.len().min(k + 2)].to_vec();
    deep(|| {
        if cx.r.chance(1, 3) {
            crate::ckpt::chain(cx, &w, &c, &HostModel::new(1), 5_000_000, 1)
        } else {
            crate::ckpt::single(cx, &w, &c, &HostModel::new(1), 5_000_000, 3)
        }
    })
}
/// C18
pub fn invisible(cx: &mut Cx) -> V {
    let (w, c) = few(cx, 6);
    deep(|| crate::ckpt::invisible(cx, &w, &c, &HostModel::new(1), 5_000_000))
}
/// C28
pub fn portable(cx: &mut Cx) -> V {
    let (w, c) = few(cx, 3);
    let h = HostModel::new(1);
    let dir = std::env::var("VH_XDIR").unwrap_or_default();
    deep(|| {
        if std::env::var("VH_PHASE").as_deref() == Ok("read") {
            crate::ckpt::xread(cx, &w, &c, &h, 5_000_000, &dir)
        } else {
            crate::ckpt::xwrite(cx, &w, &c, &h, 5_000_000, &dir)
        }
    })
}
