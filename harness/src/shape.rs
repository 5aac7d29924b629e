//! Structured families: shapes the random generator reaches rarely (wide, deep, long, exactly at a bound).
use crate::chk::*;
use crate::gen::*;
use crate::mb::*;
use crate::props::lockstep;
use crate::rng::Rng;
use crate::sweep;
use wasm_encoder::Instruction as I;
use wasm_encoder::BlockType;

pub type M = (Vec<u8>, Vec<Call>);
fn i32c(x: i64) -> I<'static> {
    I::I32Const(x as i32)
}
fn num(r: &mut Rng) -> T {
    *r.pick(&[T::I32, T::I64, T::F32, T::F64])
}
fn anyt(r: &mut Rng) -> T {
    *r.pick(&[T::I32, T::I64, T::F32, T::F64, T::I32, T::I64, T::Fn, T::Ex])
}
fn types(r: &mut Rng, lo: usize, hi: usize, refs: bool) -> Vec<T> {
    let n = r.range(lo, hi);
    (0..n).map(|_| if refs { anyt(r) } else { num(r) }).collect()
}
fn call(name: &str, args: Vec<(T, u64)>) -> Call {
    Call { name: name.into(), args }
}
fn args(r: &mut Rng, ts: &[T]) -> Vec<(T, u64)> {
    ts.iter().map(|t| (*t, if t.num() { arg_bits(r, *t) } else { 0 })).collect()
}
/// forms x consumers of the given operators
pub fn forms(cx: &mut Cx, ops: &[sweep::Op], per: u64, nv: usize, mem: (u32, Option<u32>)) -> V {
    let tot = sweep::total(ops);
    let n = tot.div_ceil(per);
    // a stride that visits every block of combinations before repeating one
    let mut from = (cx.idx % n) * per;
    if !cx.thorough {
        from = (cx.idx.wrapping_mul(7919) % n) * per;
    }
    let (w, c) = sweep::module(&mut cx.r, ops, from, per, nv, mem);
    cx.add("operand form x consumer combinations", per);
    lockstep(cx, &w, &c)
}

// ------------------------------------------------------------------ C04
fn index_forms(r: &mut Rng, k: usize, x: u32) -> Vec<I<'static>> {
    match k % 6 {
        0 => vec![I::LocalGet(x)],
        1 => vec![I::LocalGet(x), i32c(0), I::I32Add],
        2 => vec![i32c(64), I::LocalGet(x), I::I32Store(ma(0, 0)), i32c(64), I::I32Load(ma(0, 0))],
        3 => vec![I::LocalGet(x), I::LocalTee(x)],
        4 => vec![I::LocalGet(x), I::LocalGet(x), i32c(r.below(2) as i64), I::Select],
        _ => vec![I::LocalGet(x), i32c(-1), I::I32Xor, i32c(-1), I::I32Xor],
    }
}
/// br_table over deep nests of blocks and loops that carry values
pub fn br_tables_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let depth = match r.below(5) {
        0 => r.range(1, 3),
        1 | 2 => r.range(3, 10),
        3 => r.range(10, 60),
        _ => r.range(60, 200),
    };
    let ntar = match r.below(6) {
        0 => 0,
        1 => 1,
        2 | 3 => r.range(2, 12),
        4 => r.range(12, 200),
        _ => r.range(250, 1000),
    };
    let nw = *r.pick(&[0, 0, 1, 1, 2, 3, 4]);
    let ts = types(r, nw, nw, true);
    let mut kinds: Vec<usize> = (0..depth).map(|_| r.below(4)).collect();
    kinds[0] = 0;
    let nloops = kinds.iter().filter(|k| **k == 2).count() as i64;
    // params: index, one value per carried type; locals: acc, count, scratch per carried value
    let mut ps = vec![T::I32];
    ps.extend(&ts);
    let n = ps.len() as u32;
    let mut locals = vec![T::I64, T::I32];
    locals.extend(&ts);
    let (acc, cnt, s0) = (n, n + 1, n + 2);
    let vals = |c: &mut Vec<I<'static>>| {
        for k in 0..ts.len() as u32 {
            c.push(I::LocalGet(1 + k));
        }
    };
    let mark = |c: &mut Vec<I<'static>>, j: i64| {
        c.extend([I::LocalGet(acc), I::I64Const(31), I::I64Mul, I::I64Const(j), I::I64Add, I::LocalSet(acc)]);
    };
    let mut c = vec![];
    for (j, k) in kinds.iter().enumerate() {
        match k {
            0 | 1 => {
                if r.chance(1, 3) {
                    c.push(I::I64Const(-7)); // below the block: kept
                    c.push(I::LocalSet(acc));
                }
                let b = mb.bt(&[], &ts);
                c.push(I::Block(b));
            }
            2 => {
                vals(&mut c);
                let b = mb.bt(&ts, &ts);
                c.push(I::Loop(b));
                for k in (0..ts.len() as u32).rev() {
                    c.push(I::LocalSet(s0 + k));
                }
                mark(&mut c, 1000 + j as i64);
                // the third round leaves by the default target
                c.extend([I::LocalGet(cnt), i32c(1), I::I32Add, I::LocalTee(cnt), i32c(nloops + 3), I::I32GtU, I::If(BlockType::Empty), i32c(-1), I::LocalSet(0), I::End]);
                for k in 0..ts.len() as u32 {
                    c.push(I::LocalGet(s0 + k));
                    c.push(I::LocalSet(1 + k));
                }
            }
            _ => {
                let b = mb.bt(&[], &ts);
                c.push(I::LocalGet(cnt));
                c.push(i32c(if r.chance(1, 2) { 1 } else { 1000 }));
                c.push(I::I32LtU);
                c.push(I::If(b));
            }
        }
    }
    // branch
    for _ in 0..r.below(4) {
        c.push(I::F64Const(2.5));
    }
    vals(&mut c);
    let f = r.below(6);
    c.extend(index_forms(r, f, 0));
    let tar: Vec<u32> = (0..ntar).map(|_| r.below(depth) as u32).collect();
    c.push(I::BrTable(tar.into(), depth as u32 - 1));
    for (j, k) in kinds.iter().enumerate().rev() {
        if *k > 2 {
            c.push(I::Else);
            vals(&mut c);
            mark(&mut c, 5000 + j as i64);
        }
        c.push(I::End);
        if r.chance(3, 4) {
            mark(&mut c, j as i64 + 1);
        }
        for k in (0..ts.len() as u32).rev() {
            c.push(I::LocalSet(1 + k));
        }
        if j == 0 {
            break;
        }
        vals(&mut c);
    }
    let mut res = ts.clone();
    vals(&mut c);
    c.push(I::LocalGet(acc));
    res.push(T::I64);
    mb.func(Some("f"), &ps, &res, &locals, c);
    // the same through a call, with operands pending around it
    let fi = mb.next() - 1;
    let mut c = vec![I::I64Const(99)];
    for k in 0..ps.len() as u32 {
        c.push(I::LocalGet(k));
    }
    c.push(I::Call(fi));
    let mut res2 = vec![T::I64];
    res2.extend(&res);
    mb.func(Some("g"), &ps, &res2, &[], c);
    let mut idx: Vec<i64> = vec![ntar as i64 - 1, ntar as i64, ntar as i64 + 1, -1, i32::MIN as i64, i32::MAX as i64, 65535, 65536, 256, 255, 0x10000_0000 - ntar as i64];
    let few = ntar.min(24);
    for k in 0..few {
        idx.push(if ntar <= 24 { k as i64 } else { r.below(ntar) as i64 });
    }
    let mut calls = vec![];
    for i in idx {
        let mut a = vec![(T::I32, i as u32 as u64)];
        a.extend(args(r, &ts));
        calls.push(call(if r.chance(1, 4) && res2.len() <= 8 { "g" } else { "f" }, a));
    }
    cx.add("br_table executions", calls.len() as u64);
    cx.add("br_table targets", ntar as u64 + 1);
    (mb.finish(), calls)
}
/// every conditional or unconditional branch out of every depth of a nest of mixed constructs
pub fn exits_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let depth = if r.chance(1, 12) { r.range(12, 40) } else { r.range(1, 9) };
    // each construct has its own result types; a branch to it carries them
    let tys: Vec<Vec<T>> = (0..depth).map(|_| types(r, 0, 3, true)).collect();
    let kinds: Vec<usize> = (0..depth).map(|_| r.below(3)).collect();
    let rt = types(r, 0, 3, false);
    // params: from (construct), to (label), how; locals: acc, one of each type
    let ps = [T::I32, T::I32];
    let mut locals = vec![T::I64];
    locals.extend(sweep::ALL);
    let slot = |t: T| 3 + sweep::ALL.iter().position(|x| *x == t).unwrap() as u32;
    let push = |r: &mut Rng, c: &mut Vec<I<'static>>, ts: &[T]| {
        for t in ts {
            if t.num() && r.chance(1, 2) {
                c.push(cst(*t, arg_bits(r, *t)));
            } else {
                c.push(I::LocalGet(slot(*t)));
            }
        }
    };
    let take = |c: &mut Vec<I<'static>>, ts: &[T]| {
        for t in ts.iter().rev() {
            c.push(I::LocalSet(slot(*t)));
        }
    };
    let mark = |c: &mut Vec<I<'static>>, j: i64| c.extend([I::LocalGet(2), I::I64Const(37), I::I64Mul, I::I64Const(j), I::I64Add, I::LocalSet(2)]);
    let mut c = vec![];
    for t in [T::I32, T::I64, T::F32, T::F64] {
        c.push(cst(t, arg_bits(r, t)));
        c.push(I::LocalSet(slot(t)));
    }
    let mut under = vec![];
    for j in 0..depth {
        let u = types(r, 0, 2, false);
        push(r, &mut c, &u);
        under.push(u);
        let b = mb.bt(&[], &tys[j]);
        match kinds[j] {
            0 => c.push(I::Block(b)),
            1 => c.push(I::Loop(b)),
            _ => {
                c.push(I::LocalGet(0));
                c.push(i32c(if r.chance(1, 2) { 1 << 20 } else { j as i64 }));
                c.push(I::I32LtU);
                c.push(I::If(b));
            }
        }
        mark(&mut c, 100 + j as i64);
        // the branches that start here
        c.extend([I::LocalGet(0), i32c(j as i64), I::I32Eq, I::If(BlockType::Empty)]);
        for l in 0..=j {
            // label l from inside this `if` is l + 1; a loop label would start again, so count
            let tgt = j - l;
            let ts: &[T] = if kinds[tgt] == 1 { &[] } else { &tys[tgt] };
            c.extend([I::LocalGet(1), i32c(l as i64), I::I32Eq, I::If(BlockType::Empty)]);
            if kinds[tgt] == 1 {
                c.extend([i32c(-1), I::LocalSet(1)]);
            }
            for _ in 0..r.below(3) {
                c.push(I::I64Const(1));
            }
            push(r, &mut c, ts);
            match r.below(4) {
                0 => c.push(I::Br(l as u32 + 2)),
                1 => {
                    c.extend([I::LocalGet(0), i32c(-1), I::I32Ne, I::BrIf(l as u32 + 2)]);
                    c.push(I::Unreachable);
                }
                2 => {
                    c.extend([I::LocalGet(0), i32c(77), I::I32Eq, I::I32Eqz, I::BrIf(l as u32 + 2)]);
                    c.push(I::Unreachable);
                }
                _ => {
                    c.push(I::LocalGet(1));
                    c.push(I::BrTable(vec![l as u32 + 2].into(), l as u32 + 2));
                }
            }
            c.push(I::End);
        }
        // leave the function
        c.extend([I::LocalGet(1), i32c(1000), I::I32Eq, I::If(BlockType::Empty)]);
        push(r, &mut c, &rt);
        c.push(I::LocalGet(2));
        if r.chance(1, 2) {
            c.push(I::Return);
        } else {
            c.push(I::Br(j as u32 + 3));
        }
        c.push(I::End);
        c.push(I::End);
    }
    for j in (0..depth).rev() {
        push(r, &mut c, &tys[j]);
        if kinds[j] == 2 && (tys[j].len() > 0 || r.chance(1, 2)) {
            c.push(I::Else);
            mark(&mut c, 300 + j as i64);
            push(r, &mut c, &tys[j]);
        }
        c.push(I::End);
        take(&mut c, &tys[j]);
        // what lay below is still there
        take(&mut c, &under[j]);
        mark(&mut c, 200 + j as i64);
    }
    push(r, &mut c, &rt);
    c.push(I::LocalGet(2));
    let mut res = rt.clone();
    res.push(T::I64);
    mb.func(Some("f"), &ps, &res, &locals, c);
    let mut calls = vec![];
    for _ in 0..(if depth > 10 { 40 } else { 30 }) {
        let j = r.below(depth + 1);
        let l = if r.chance(1, 8) { 1000 } else { r.below(j + 2) };
        calls.push(call("f", vec![(T::I32, j as u64), (T::I32, l as u64)]));
    }
    cx.add("exits from nests", calls.len() as u64);
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C05
/// signatures up to 16 parameters and 8 results, called directly, indirectly and fed to each other
pub fn signatures_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    mb.datas.push(Da::Active(0, (0..200u8).map(|x| x.wrapping_mul(91)).collect()));
    for t in [T::I32, T::I64, T::F32, T::F64] {
        let b = arg_bits(r, t);
        mb.global(t, true, b);
    }
    let refs = r.chance(1, 2);
    let nf = r.range(2, 6);
    let mut sigs: Vec<(Vec<T>, Vec<T>)> = vec![];
    for k in 0..nf {
        let hi = *r.pick(&[2, 5, 9, 16]);
        let mut p = types(r, 0, hi, refs);
        // sometimes exactly what an earlier function returns
        if k > 0 && r.chance(1, 2) {
            p = sigs[r.below(k)].1.clone();
        }
        let hr = *r.pick(&[1, 3, 8]);
        let q = types(r, 0, hr, refs);
        sigs.push((p, q));
    }
    let mut ids = vec![];
    for (p, q) in &sigs {
        // callee: shifts its parameters about, overwrites them and its locals, returns a selection
        let mut locals = types(r, 0, 6, refs);
        locals.extend(q.iter());
        let np = p.len() as u32;
        let base = np + (locals.len() - q.len()) as u32;
        let mut c = vec![];
        for (k, t) in q.iter().enumerate() {
            let same: Vec<u32> = p.iter().enumerate().filter(|x| x.1 == t).map(|x| x.0 as u32).collect();
            if !same.is_empty() && r.chance(5, 6) {
                c.push(I::LocalGet(*r.pick(&same)));
                if t.num() && r.chance(1, 3) {
                    c.push(I::LocalGet(*r.pick(&same)));
                    c.push(sweep::sub_of(*t));
                }
            } else if t.num() {
                c.push(cst(*t, arg_bits(r, *t)));
            } else {
                c.push(cst(*t, 0));
            }
            c.push(I::LocalSet(base + k as u32));
        }
        for (k, t) in p.iter().enumerate() {
            if r.chance(1, 3) && t.num() {
                c.push(cst(*t, arg_bits(r, *t)));
                c.push(I::LocalSet(k as u32));
            }
        }
        let junk = r.chance(1, 3);
        if junk {
            for _ in 0..r.below(3) {
                c.push(I::I64Const(4));
            }
        }
        for k in 0..q.len() as u32 {
            c.push(I::LocalGet(base + k));
        }
        if junk {
            c.push(I::Return);
        }
        ids.push(mb.func(None, p, q, &locals, c));
    }
    mb.tables.push((T::Fn, nf as u32 + 2, None));
    mb.elems.push(El::Active { table: None, off: 1, funcs: ids.clone() });
    let mut calls = vec![];
    for w in 0..8 {
        let k = r.below(nf);
        let (p, q) = sigs[k].clone();
        let np = p.len() as u32;
        let mut locals: Vec<T> = q.clone();
        locals.extend(p.iter());
        let mut c = vec![];
        let below = types(r, 0, 3, false);
        for t in &below {
            c.push(cst(*t, arg_bits(r, *t)));
        }
        // operands
        let feeder = (0..nf).find(|j| sigs[*j].1 == p && sigs[*j].0.len() <= np as usize && sigs[*j].0.iter().zip(&p).all(|x| x.0 == x.1));
        if let (Some(j), true) = (feeder, r.chance(1, 2)) {
            for x in 0..sigs[j].0.len() as u32 {
                c.push(I::LocalGet(x));
            }
            c.push(I::Call(ids[j]));
        } else {
            for (x, t) in p.iter().enumerate() {
                match r.below(6) {
                    0 => c.push(cst(*t, arg_bits(r, *t))),
                    1 if t.num() => c.push(I::GlobalGet(match t {
                        T::I32 => 0,
                        T::I64 => 1,
                        T::F32 => 2,
                        _ => 3,
                    })),
                    2 if t.num() => {
                        c.push(i32c(r.below(100) as i64));
                        c.push(sweep::ld_of(*t));
                    }
                    3 => {
                        c.push(I::LocalGet(x as u32));
                        c.push(I::LocalTee(np + q.len() as u32 + x as u32));
                    }
                    4 if *t == T::Fn => c.extend([i32c(1 + r.below(nf) as i64), I::TableGet(0)]),
                    _ => c.push(I::LocalGet(x as u32)),
                }
            }
        }
        if r.chance(1, 2) {
            c.push(I::Call(ids[k]));
        } else {
            let ty = mb.ty(&p, &q);
            c.push(i32c(k as i64 + 1));
            c.push(I::CallIndirect { type_index: ty, table_index: 0 });
        }
        let mut res = vec![];
        match r.below(3) {
            0 if q.len() + below.len() <= 8 => {
                res = below.clone();
                res.extend(&q);
            }
            1 => {
                for x in (0..q.len() as u32).rev() {
                    c.push(I::LocalSet(np + x));
                }
                for _ in &below {
                    c.push(I::Drop);
                }
                // arguments must be unharmed
                let ok: Vec<u32> = (0..np).collect();
                let s = r.below(np as usize + 1);
                for x in ok.into_iter().skip(s).take(4) {
                    c.push(I::LocalGet(x));
                    res.push(p[x as usize]);
                }
                for x in 0..q.len().min(8 - res.len()) {
                    c.push(I::LocalGet(np + x as u32));
                    res.push(q[x]);
                }
            }
            _ => {
                for _ in 0..q.len() {
                    c.push(I::Drop);
                }
                res = below.clone();
            }
        }
        let name = format!("w{}", w);
        mb.func(Some(&name), &p, &res, &locals, c);
        for _ in 0..3 {
            calls.push(call(&name, args(r, &p)));
        }
    }
    cx.add("signatures", nf as u64);
    (mb.finish(), calls)
}
/// call_indirect with every type at every slot of two tables, and beyond
pub fn slots_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    // duplicated entries in the type section: equality is structural
    let mut base: Vec<(Vec<T>, Vec<T>)> = vec![(vec![], vec![T::I64]), (vec![T::I32], vec![T::I64]), (vec![], vec![T::I64, T::I32]), (vec![T::I64], vec![T::I64]), (vec![T::I32, T::I32], vec![T::I64]), (vec![], vec![])];
    if r.chance(1, 2) {
        base.push((vec![T::F32, T::Fn], vec![T::F64]));
    }
    let dup = base.clone();
    for d in &dup {
        if r.chance(1, 2) {
            base.push(d.clone());
        }
    }
    mb.types = base.clone();
    let nf = r.range(3, 14);
    let mut funcs = vec![];
    for j in 0..nf {
        let (p, q) = base[r.below(base.len())].clone();
        let mut c = vec![i32c(8), I::I64Const(j as i64), I::I64Store(ma(0, 0))];
        for t in &q {
            c.push(cst(*t, 1000 + j as u64));
        }
        funcs.push(mb.func(None, &p, &q, &[], c));
    }
    let n = r.range(2, 30) as u32;
    mb.tables.push((T::Fn, n, Some(n)));
    mb.tables.push((T::Fn, 7, Some(7)));
    for (t, size) in [(0u32, n), (1, 7)] {
        for _ in 0..3 {
            let len = r.range(1, 6).min(size as usize);
            let off = r.below(size as usize - len + 1) as i32;
            let it: Vec<Option<u32>> = (0..len).map(|_| if r.chance(1, 6) { None } else { Some(*r.pick(&funcs)) }).collect();
            mb.elems.push(El::ActiveExpr { table: t, off, items: it });
        }
    }
    let mut calls = vec![];
    let distinct = base.len();
    for ty in 0..distinct {
        for tb in 0..2u32 {
            let (p, q) = base[ty].clone();
            let mut c = vec![I::I64Const(-3)];
            for t in &p {
                c.push(cst(*t, arg_bits(r, *t)));
            }
            let f = r.below(6);
            c.extend(index_forms(r, f, 0));
            c.push(I::CallIndirect { type_index: ty as u32, table_index: tb });
            let mut res = vec![T::I64];
            res.extend(&q);
            let name = format!("c{}_{}", ty, tb);
            mb.func(Some(&name), &[T::I32], &res, &[], c);
            let size = if tb == 0 { n } else { 7 };
            for s in (0..size).chain([size, size + 1, 255, 65536, 0x7fffffff, 0x80000000, 0xffffffff]) {
                calls.push(call(&name, vec![(T::I32, s as u64)]));
            }
            // constant slots
            let s = r.below(size as usize + 2) as i64;
            let mut c = vec![];
            for t in &p {
                c.push(cst(*t, arg_bits(r, *t)));
            }
            c.push(i32c(s));
            c.push(I::CallIndirect { type_index: ty as u32, table_index: tb });
            let name = format!("k{}_{}", ty, tb);
            mb.func(Some(&name), &[], &q, &[], c);
            calls.push(call(&name, vec![]));
        }
    }
    cx.add("type x slot pairs", calls.len() as u64);
    (mb.finish(), calls)
}
/// recursion: locals and pending operands of every frame survive the calls below it
pub fn recursion_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let rf = r.chance(1, 3);
    let extra = types(r, 0, 10, rf);
    let mut ps = vec![T::I32, T::I64];
    ps.extend(&extra);
    let np = ps.len() as u32;
    let nl = r.range(0, 8);
    let mut locals: Vec<T> = (0..nl).map(|_| T::I64).collect();
    locals.push(T::I64);
    locals.push(T::I32);
    let (acc, tmp) = (np + nl as u32, np + nl as u32 + 1);
    let nfun = r.range(1, 3) as u32;
    let kind = r.below(3);
    mb.tables.push((T::Fn, nfun, Some(nfun)));
    mb.elems.push(El::Active { table: None, off: 0, funcs: (0..nfun).collect() });
    for me in 0..nfun {
        let next = (me + 1) % nfun;
        let ty = mb.ty(&ps, &[T::I64, T::I32]);
        let mut c = vec![];
        for k in 0..nl as u32 {
            c.extend([I::LocalGet(1), I::I64Const(k as i64 * 7 + 1), I::I64Mul, I::LocalGet(0), I::I64ExtendI32U, I::I64Xor, I::LocalSet(np + k)]);
        }
        let b = mb.bt(&[], &[T::I64, T::I32]);
        c.extend([I::LocalGet(0), I::If(b)]);
        let times = if kind == 2 { 2 } else { 1 };
        for t in 0..times {
            // operands pending below the call
            for _ in 0..r.below(4) {
                c.extend([I::LocalGet(1), I::LocalGet(0), I::I64ExtendI32S, I::I64Add, I::LocalGet(acc), I::I64Xor, I::LocalSet(acc)]);
            }
            c.push(I::LocalGet(acc));
            c.push(I::LocalGet(1));
            c.extend([I::LocalGet(0), i32c(1), I::I32Sub]);
            c.extend([I::LocalGet(1), I::I64Const(0x9e3779b9 + t as i64), I::I64Mul, I::I64Const(3), I::I64Add]);
            for k in 0..extra.len() as u32 {
                c.push(I::LocalGet(2 + k));
            }
            if r.chance(1, 2) {
                c.push(I::Call(next));
            } else {
                c.push(i32c(next as i64));
                c.push(I::CallIndirect { type_index: ty, table_index: 0 });
            }
            c.extend([I::LocalSet(tmp), I::I64Add, I::I64Xor, I::LocalSet(acc)]);
        }
        for k in 0..nl as u32 {
            c.extend([I::LocalGet(acc), I::I64Const(5), I::I64Rotl, I::LocalGet(np + k), I::I64Add, I::LocalSet(acc)]);
        }
        c.extend([I::LocalGet(acc), I::LocalGet(tmp), i32c(1), I::I32Add]);
        c.push(I::Else);
        c.extend([I::LocalGet(1), I::LocalGet(0)]);
        if r.chance(1, 2) {
            c.push(I::Return);
        }
        c.push(I::End);
        let name = format!("f{}", me);
        mb.func(Some(&name), &ps, &[T::I64, T::I32], &locals, c);
    }
    let mut calls = vec![];
    for _ in 0..4 {
        let n = if kind == 2 { r.range(0, 9) } else { *r.pick(&[0, 1, 2, 7, 40, 150, 300, 380]) };
        let mut a = vec![(T::I32, n as u64), (T::I64, r.u64())];
        a.extend(args(r, &extra));
        calls.push(call("f0", a));
    }
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C06, C07
const PASS: u32 = 1;
/// fill, copy and init over memories of several pages: overlap in both directions, lengths up to the whole memory
pub fn bulk_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let pages = *r.pick(&[1u32, 2, 3, 5]);
    mb.mem = Some((pages, Some(pages + 1)));
    let b: Vec<u8> = (0..2000).map(|_| r.u32() as u8).collect();
    mb.datas.push(Da::Active(r.below(60000) as i32, b));
    let n = *r.pick(&[0usize, 1, 7, 300, 70_000]);
    let b: Vec<u8> = (0..n).map(|k| (k * 7 + k / 251) as u8).collect();
    mb.datas.push(Da::Passive(b));
    let p3 = [T::I32, T::I32, T::I32];
    let body = |i: I<'static>| vec![I::LocalGet(0), I::LocalGet(1), I::LocalGet(2), i];
    mb.func(Some("fill"), &p3, &[], &[], body(I::MemoryFill(0)));
    mb.func(Some("copy"), &p3, &[], &[], body(I::MemoryCopy { src_mem: 0, dst_mem: 0 }));
    mb.func(Some("init"), &p3, &[], &[], body(I::MemoryInit { mem: 0, data_index: PASS }));
    mb.func(Some("drop"), &[], &[], &[], vec![I::DataDrop(PASS)]);
    // writes a recognisable ramp by ordinary stores
    let ramp = vec![
        I::Loop(BlockType::Empty), I::LocalGet(0), I::LocalGet(0), I::LocalGet(2), I::I32Mul, I::I32Store(ma(0, 0)), I::LocalGet(0), i32c(4), I::I32Add, I::LocalTee(0),
        I::LocalGet(1), I::I32LtU, I::BrIf(0), I::End,
    ];
    mb.func(Some("ramp"), &p3, &[], &[], ramp);
    let size = pages as u64 * 65536;
    let mut calls = vec![];
    let base = r.below(size as usize - 5000) as u64;
    calls.push(call("ramp", vec![(T::I32, base), (T::I32, base + 4000), (T::I32, r.u32() as u64 | 1)]));
    for _ in 0..14 {
        let edge = |r: &mut Rng| -> u64 {
            match r.below(7) {
                0 => 0,
                1 => r.below(size as usize + 1) as u64,
                2 => base + r.below(4000) as u64,
                3 => 65536 * r.below(pages as usize + 1) as u64 + r.below(9) as u64,
                4 => (65536 * (1 + r.below(pages as usize)) as u64).saturating_sub(r.below(9) as u64),
                5 => size - r.below(300) as u64,
                _ => base,
            }
        };
        let len = |r: &mut Rng, room: u64| -> u64 {
            match r.below(8) {
                0 => r.below(5) as u64,
                1 => room,
                2 => room.saturating_sub(r.below(4) as u64),
                3 => r.below(room as usize + 1) as u64,
                4 => [15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4095, 4096, 4097, 65535, 65536, 65537][r.below(18)].min(room),
                _ => r.below(300).min(room as usize) as u64,
            }
        };
        match r.below(9) {
            0 | 1 => {
                let d = edge(r);
                let room = size.saturating_sub(d);
                let n = len(r, room);
                calls.push(call("fill", vec![(T::I32, d), (T::I32, r.u32() as u64), (T::I32, n)]));
            }
            2..=6 => {
                let s = edge(r).min(size);
                // near, so that the ranges overlap
                let d = if r.chance(2, 3) {
                    let k = *r.pick(&[1u64, 2, 3, 4, 7, 8, 16, 100, 3000]);
                    if r.chance(1, 2) { s.saturating_sub(k) } else { (s + k).min(size) }
                } else {
                    edge(r).min(size)
                };
                let room = size - d.max(s);
                let n = len(r, room);
                cx.cov.n.entry("overlapping copies").and_modify(|x| *x += (d != s && d.abs_diff(s) < n) as u64).or_insert((d != s && d.abs_diff(s) < n) as u64);
                calls.push(call("copy", vec![(T::I32, d), (T::I32, s), (T::I32, n)]));
            }
            7 => {
                let d = edge(r);
                let s = r.below(n + 1) as u64;
                let room = size.saturating_sub(d).min(n as u64 - s);
                let n = len(r, room);
                calls.push(call("init", vec![(T::I32, d), (T::I32, s), (T::I32, n)]));
            }
            _ => {
                if r.chance(1, 4) {
                    calls.push(call("drop", vec![]));
                }
            }
        }
    }
    cx.add("bulk operations", calls.len() as u64 - 1);
    (mb.finish(), calls)
}
fn offsets(r: &mut Rng, size: u64, edge: bool) -> Vec<u64> {
    let mut v = vec![0, 1, 8];
    if edge {
        v.extend([size.saturating_sub(8), size.saturating_sub(1), size, 0x7fffffff, 0x80000000, 0xfffffff8, 0xffffffff, 0xffff, 0x10000]);
    } else {
        v.extend([100, 3, 0x8000, 0xff00]);
    }
    vec![v[r.below(3)], v[3 + r.below(v.len() - 3)]]
}
pub fn c06_forms(cx: &mut Cx) -> V {
    let o = offsets(&mut cx.r, 65536, false);
    let mut ops = sweep::mem_ops(&o, &|off, n| {
        let room = 65536 - off - n as u64;
        vec![0, 5, 0x1234.min(room), room, room.saturating_sub(1), 200.min(room)]
    });
    ops.extend(sweep::bulk_ops(vec![0, 1, 16, 0x100, 0x8000, 0xff00], vec![0, 1, 2, 17, 90], 2, vec![0, 1, 10]));
    forms(cx, &ops, 20, 3, (1, Some(3)))
}
pub fn c07_forms(cx: &mut Cx) -> V {
    let pages = *cx.r.pick(&[0u32, 1, 1, 1, 2]);
    let size = pages as u64 * 65536;
    let o = offsets(&mut cx.r, size, true);
    let mut ops = sweep::mem_ops(&o, &|off, n| {
        let end = size.saturating_sub(off).saturating_sub(n as u64);
        let mut v = vec![0, end, end + 1, end.saturating_sub(1), end + n as u64, end + n as u64 - 1, 0xffffffff, 0x80000000, 0xffffffff - off.min(0xffffffff), (0x100000000 - off) & 0xffffffff];
        for x in &mut v {
            *x &= 0xffffffff;
        }
        v
    });
    let e = vec![0, size.saturating_sub(1), size, size + 1, size.saturating_sub(17), 0xffffffff, 0xfffffff0, 0x80000000];
    let seg = match pages {
        0 => 0,
        1 => 2,
        _ => 3,
    };
    let mut bulk = sweep::bulk_ops(e, vec![0, 1, 2, 16, 17, 18, 0xffffffff, 0x10], seg, vec![0, 99, 100, 101, 83, 84, 0xffffffff]);
    if pages == 0 {
        bulk.pop();
    }
    ops.extend(bulk);
    forms(cx, &ops, 20, 6, (pages, Some(3)))
}
/// each access at each distance from the end of memory, in a memory that grows between rounds
pub fn boundary_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let pages = r.below(3) as u32;
    mb.mem = Some((pages, Some(8)));
    mb.func(Some("grow"), &[T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::MemoryGrow(0)]);
    let mut fs = vec![];
    for k in 0..8 {
        let off = *r.pick(&[0u64, 0, 1, 4, 8, 0xfff8, 0xffff, 0x10000, 0x1ffff, 0x20000, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff]);
        let name = format!("a{}", k);
        if r.chance(1, 2) {
            let l = r.pick(&LOADS);
            mb.func(Some(&name), &[T::I32], &[l.1], &[], vec![I::LocalGet(0), (l.0)(ma(off, 0))]);
            fs.push((name, off, l.2 as u64, None));
        } else {
            let s = r.pick(&STORES);
            mb.func(Some(&name), &[T::I32, s.1], &[], &[], vec![I::LocalGet(0), I::LocalGet(1), (s.0)(ma(off, 0))]);
            fs.push((name, off, s.2 as u64, Some(s.1)));
        }
    }
    let mut size = pages as u64 * 65536;
    let mut calls = vec![];
    for _ in 0..4 {
        for (name, off, n, st) in &fs {
            for d in -2i64..=(*n as i64 + 1) {
                let a = size as i64 - *off as i64 - d;
                // with a large offset the wrapped address: the sum exceeds 32 bits and must trap
                let mut args = vec![(T::I32, a as u32 as u64)];
                if let Some(t) = st {
                    args.push((*t, arg_bits(r, *t)));
                }
                calls.push(call(name, args));
            }
        }
        let g = r.below(3) as u64;
        calls.push(call("grow", vec![(T::I32, g)]));
        if size / 65536 + g <= 8 {
            size += g * 65536;
        }
    }
    cx.add("accesses at the end of memory", calls.len() as u64);
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C08
pub fn c08_forms(cx: &mut Cx) -> V {
    let ops = sweep::size_ops(vec![0, 0, 0, 1, 1, 2, 3, 0xffff, 0x10000, 0xffffffff, 0x80000000, 65533]);
    let pages = cx.r.below(3) as u32;
    let max = pages + cx.r.below(5) as u32;
    forms(cx, &ops, 20, 3, (pages, Some(max)))
}
/// long histories of grow with accesses at the old and new ends
pub fn walk_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let min = *r.pick(&[0u32, 0, 1, 2, 10]);
    let max = match r.below(5) {
        0 => Some(min),
        1 => Some(min + 1),
        2 => Some(min + r.below(80) as u32),
        3 => Some(65536),
        _ => None,
    };
    mb.mem = Some((min, max));
    let p = [T::I32];
    mb.func(Some("grow"), &p, &[T::I32], &[], vec![I::LocalGet(0), I::MemoryGrow(0)]);
    mb.func(Some("size"), &[], &[T::I32], &[], vec![I::MemorySize(0)]);
    mb.func(Some("both"), &p, &[T::I32, T::I32, T::I32], &[], vec![I::MemorySize(0), I::LocalGet(0), I::MemoryGrow(0), I::MemorySize(0)]);
    mb.func(Some("put"), &[T::I32, T::I64], &[], &[], vec![I::LocalGet(0), I::LocalGet(1), I::I64Store(ma(0, 0))]);
    mb.func(Some("get"), &p, &[T::I64], &[], vec![I::LocalGet(0), I::I64Load(ma(0, 0))]);
    mb.func(Some("fill"), &[T::I32, T::I32, T::I32], &[], &[], vec![I::LocalGet(0), I::LocalGet(1), I::LocalGet(2), I::MemoryFill(0)]);
    // grows in the middle of an expression, below pending operands, from a callee and in a loop
    mb.func(Some("mid"), &[T::I32, T::I64], &[T::I64, T::I32], &[], vec![I::LocalGet(1), I::LocalGet(0), I::Call(0), I::MemorySize(0), I::I32Add]);
    let b = BlockType::Empty;
    mb.func(
        Some("loop"), &p, &[T::I32], &[T::I32],
        vec![
            I::Block(b), I::Loop(b), I::LocalGet(0), I::I32Eqz, I::BrIf(1), i32c(1), I::MemoryGrow(0), i32c(-1), I::I32Eq, I::BrIf(1), I::MemorySize(0), i32c(16), I::I32Shl, i32c(8), I::I32Sub,
            I::LocalGet(0), I::I32Store(ma(0, 0)), I::LocalGet(0), i32c(1), I::I32Sub, I::LocalSet(0), I::Br(0), I::End, I::End, I::LocalGet(0),
        ],
    );
    let mut size = min as u64;
    let lim = max.unwrap_or(65536) as u64;
    let cap = 60.min(lim);
    let mut calls = vec![];
    let mut bump = |calls: &mut Vec<Call>, name: &str, g: u64, extra: Option<(T, u64)>| {
        let mut a = vec![(T::I32, g & 0xffffffff)];
        a.extend(extra);
        calls.push(call(name, a));
        if size + g <= lim {
            size += g;
        }
        size
    };
    let mut cur = min as u64;
    for _ in 0..30 {
        let room = lim.saturating_sub(cur);
        let g = match r.below(10) {
            0 => 0,
            9 => 10 + r.below(45) as u64,
            1 | 2 => 1,
            3 if room < 40 => room,
            4 => room + 1,
            5 => 65536 - cur + 1,
            6 => *r.pick(&[65536, 65537, 0x7fffffff, 0x80000000, 0xffffffff, 0x10001]),
            _ => r.below(4) as u64,
        };
        let g = if g <= room && cur + g > cap { 0 } else { g };
        match r.below(8) {
            0 => cur = bump(&mut calls, "both", g, None),
            1 => cur = bump(&mut calls, "mid", g, Some((T::I64, r.u64()))),
            2 => {
                let n = r.below(4) as u64;
                if cur + n <= cap {
                    // one page at a time: stops at the limit
                    for k in 0..n {
                        if cur + k < lim {
                            // accounted below
                        }
                    }
                    calls.push(call("loop", vec![(T::I32, n)]));
                    for _ in 0..n {
                        cur = {
                            let mut none = vec![];
                            bump(&mut none, "grow", 1, None)
                        };
                    }
                }
            }
            _ => cur = bump(&mut calls, "grow", g, None),
        }
        calls.push(call("size", vec![]));
        let end = cur * 65536;
        for _ in 0..2 {
            let at = match r.below(5) {
                0 => end.wrapping_sub(8),
                1 => end.wrapping_sub(7),
                2 => end,
                3 => r.below(end as usize + 1) as u64,
                _ => end.wrapping_sub(65536 + 4),
            } & 0xffffffff;
            if r.chance(1, 2) {
                calls.push(call("put", vec![(T::I32, at), (T::I64, r.u64())]));
            } else {
                calls.push(call("get", vec![(T::I32, at)]));
            }
        }
        if r.chance(1, 6) {
            calls.push(call("fill", vec![(T::I32, end.saturating_sub(70000)), (T::I32, r.u32() as u64), (T::I32, 70000.min(end))]));
        }
    }
    cx.add("grow histories", 1);
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C09
/// many globals of every type: reads, writes, copies, swaps and updates with operands pending
pub fn globals_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let n = *r.pick(&[1usize, 4, 20, 130, 300, 700]);
    let special = [0x7fc00000u64, 0x7f800001, 0xffc12345, 0x80000000, 0, 1, 0x7ff8000000000001, 0xfff0000000000001, 0x8000000000000000, 0xffffffffffffffff];
    let mut gs = vec![];
    for _ in 0..n {
        let t = num(r);
        let v = if r.chance(1, 3) { *r.pick(&special) } else { arg_bits(r, t) };
        let mu = r.chance(5, 6);
        mb.global(t, mu, v);
        gs.push((t, mu));
    }
    let pick = |r: &mut Rng, t: Option<T>, mu: bool| -> Option<u32> {
        for _ in 0..40 {
            let k = r.below(n);
            if (t.is_none() || t == Some(gs[k].0)) && (!mu || gs[k].1) {
                return Some(k as u32);
            }
        }
        None
    };
    let id: Vec<u32> = sweep::ALL[..4].iter().map(|t| mb.func(None, &[*t], &[*t], &[], vec![I::LocalGet(0)])).collect();
    // a callee that changes globals behind its caller's back
    let mut c = vec![];
    for _ in 0..6 {
        if let Some(g) = pick(r, None, true) {
            let t = gs[g as usize].0;
            c.push(cst(t, arg_bits(r, t)));
            c.push(I::GlobalSet(g));
        }
    }
    let touch = mb.func(None, &[], &[], &[], c);
    let mut calls = vec![];
    for f in 0..6 {
        let locals = [T::I32, T::I64, T::F32, T::F64];
        let ps = locals;
        let lt = |t: T| ps.iter().position(|x| *x == t).unwrap() as u32;
        let mut c = vec![];
        for _ in 0..r.range(4, 30) {
            let Some(g) = pick(r, None, true) else { break };
            let t = gs[g as usize].0;
            let h = pick(r, Some(t), false).unwrap_or(g);
            let l = lt(t);
            match r.below(14) {
                0 => c.extend([cst(t, arg_bits(r, t)), I::GlobalSet(g)]),
                1 => c.extend([I::GlobalGet(h), I::GlobalSet(g)]),
                2 => c.extend([I::LocalGet(l), I::GlobalSet(g)]),
                3 => c.extend([I::GlobalGet(h), I::LocalSet(l)]),
                4 => {
                    // swap
                    if let Some(k) = pick(r, Some(t), true) {
                        c.extend([I::GlobalGet(g), I::GlobalGet(k), I::GlobalSet(g), I::GlobalSet(k)]);
                    }
                }
                5 if matches!(t, T::I32 | T::I64) => c.extend([I::GlobalGet(g), cst(t, 3), sweep::add_of(t), I::GlobalSet(g)]),
                6 if matches!(t, T::I32 | T::I64) => c.extend([I::GlobalGet(g), I::GlobalGet(g), sweep::add_of(t), I::GlobalSet(g)]),
                7 => {
                    // read, change, use the old value
                    c.extend([I::GlobalGet(g), cst(t, arg_bits(r, t)), I::GlobalSet(g), I::LocalSet(l)]);
                }
                8 => c.extend([I::GlobalGet(g), I::Call(touch), I::LocalSet(l)]),
                9 => c.extend([I::LocalGet(l), I::LocalTee(l), I::GlobalSet(g)]),
                10 => {
                    c.extend([I::GlobalGet(h), I::Call(id[sweep::ALL.iter().position(|x| *x == t).unwrap()]), I::GlobalSet(g)]);
                }
                11 => c.extend([I::GlobalGet(h), I::GlobalGet(g), I::LocalGet(0), I::Select, I::GlobalSet(g)]),
                12 => {
                    c.extend([i32c(16), I::GlobalGet(h), sweep::st_of(t), i32c(16), sweep::ld_of(t), I::GlobalSet(g)]);
                }
                _ => c.extend([I::LocalGet(0), I::If(BlockType::Empty), I::GlobalGet(h), I::GlobalSet(g), I::Else, I::LocalGet(l), I::GlobalSet(g), I::End]),
            }
        }
        let g = r.below(n) as u32;
        let mut res = locals.to_vec();
        for k in 0..4 {
            c.push(I::LocalGet(k));
        }
        for _ in 0..3 {
            let k = pick(r, None, false).unwrap_or(g);
            c.push(I::GlobalGet(k));
            res.push(gs[k as usize].0);
        }
        let name = format!("f{}", f);
        mb.func(Some(&name), &ps, &res, &[], c);
        for _ in 0..2 {
            calls.push(call(&name, args(r, &ps)));
        }
    }
    for i in (1..calls.len()).rev() {
        let j = r.below(i + 1);
        calls.swap(i, j);
    }
    cx.add("globals declared", n as u64);
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C10
pub fn c10_forms(cx: &mut Cx) -> V {
    let mut ops = sweep::table_ops();
    ops.extend(sweep::select_ops().into_iter().filter(|o| o.result.is_some_and(|t| !t.num())));
    forms(cx, &ops, 12, 5, (1, Some(2)))
}
/// histories of get, set, fill, is_null and indirect calls on three tables, references moved between them
pub fn refs_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let sizes = [r.range(1, 12) as u32, r.range(1, 300) as u32, r.range(1, 6) as u32];
    let kinds = [T::Fn, T::Fn, T::Ex];
    let mut fs = vec![];
    for k in 0..5i64 {
        let (p, q): (&[T], &[T]) = if k % 2 == 0 { (&[], &[T::I64]) } else { (&[T::I64], &[T::I64]) };
        let mut c = vec![];
        if k % 2 == 1 {
            c.push(I::LocalGet(0));
            c.push(I::I64Const(k));
            c.push(I::I64Mul);
        } else {
            c.push(I::I64Const(k * 111));
        }
        fs.push(mb.func(None, p, q, &[], c));
    }
    for k in 0..3 {
        mb.tables.push((kinds[k], sizes[k], if r.chance(1, 2) { Some(sizes[k] + 3) } else { None }));
    }
    for k in 0..2u32 {
        let len = r.below(sizes[k as usize] as usize + 1).min(20);
        let it = (0..len).map(|_| if r.chance(1, 5) { None } else { Some(*r.pick(&fs)) }).collect();
        let off = r.below(sizes[k as usize] as usize - len + 1) as i32;
        mb.elems.push(El::ActiveExpr { table: k, off, items: it });
    }
    mb.tables.push((T::Fn, 5, None));
    mb.elems.push(El::Active { table: Some(3), off: 0, funcs: fs.clone() });
    let t0 = mb.ty(&[], &[T::I64]);
    let t1 = mb.ty(&[T::I64], &[T::I64]);
    // param: index a, b; locals: two funcrefs, one externref, i64 acc
    let ps = [T::I32, T::I32, T::Fn, T::Ex];
    let locals = [T::Fn, T::Fn, T::Ex, T::I64];
    let (fa, fb, ex, acc) = (4u32, 5, 6, 7);
    let mut calls = vec![];
    for f in 0..8 {
        let mut c = vec![];
        let add = |c: &mut Vec<I<'static>>| c.extend([I::I64ExtendI32U, I::LocalGet(acc), I::I64Const(3), I::I64Mul, I::I64Add, I::LocalSet(acc)]);
        for _ in 0..r.range(3, 14) {
            let ix = match r.below(4) {
                0 => i32c(r.below(sizes[0] as usize) as i64),
                1 => i32c(r.below(sizes[1] as usize + 1) as i64),
                2 => I::LocalGet(1),
                _ => I::LocalGet(0),
            };
            if r.chance(1, 6) {
                c.extend([i32c(r.below(5) as i64), I::TableGet(3), I::LocalSet(if r.chance(1, 2) { fa } else { fb })]);
            }
            let v = match r.below(6) {
                1 => cst(T::Fn, 0),
                2 => I::LocalGet(fb),
                3 => I::LocalGet(2),
                _ => I::LocalGet(fa),
            };
            let tb = r.below(2) as u32;
            match r.below(14) {
                0 => c.extend([ix, v, I::TableSet(tb)]),
                1 => c.extend([ix, I::TableGet(tb), I::LocalSet(fa)]),
                2 => c.extend([ix, I::TableGet(tb), I::LocalTee(fb), I::LocalSet(fa)]),
                3 => {
                    // table to table
                    let jx = I::LocalGet(1);
                    c.extend([jx, ix, I::TableGet(tb), I::TableSet(1 - tb)]);
                }
                4 => {
                    c.extend([ix, I::TableGet(tb), I::RefIsNull]);
                    add(&mut c);
                }
                5 => {
                    c.extend([v, I::RefIsNull]);
                    add(&mut c);
                }
                6 => c.extend([ix, v, i32c(r.below(4) as i64), I::TableFill(tb)]),
                7 => c.extend([v, I::LocalGet(fa), I::LocalGet(1), I::TypedSelect(T::Fn.vt()), I::LocalSet(fb)]),
                8 => {
                    c.extend([ix, I::CallIndirect { type_index: t0, table_index: tb }, I::LocalGet(acc), I::I64Xor, I::LocalSet(acc)]);
                }
                9 => {
                    c.extend([I::LocalGet(acc), ix, I::CallIndirect { type_index: t1, table_index: tb }, I::LocalSet(acc)]);
                }
                10 => c.extend([i32c(r.below(sizes[2] as usize) as i64), I::LocalGet(3), I::TableSet(2)]),
                11 => c.extend([i32c(r.below(sizes[2] as usize + 1) as i64), I::TableGet(2), I::LocalSet(ex)]),
                12 => {
                    // the null test as a condition
                    c.extend([ix, I::TableGet(tb), I::RefIsNull, I::If(BlockType::Empty), v, I::LocalSet(fa), I::Else, I::LocalGet(fa), I::LocalSet(fb), I::End]);
                }
                _ => {
                    let b = mb.bt(&[], &[T::Fn]);
                    c.extend([I::Block(b), ix, I::TableGet(tb), v, I::RefIsNull, I::BrIf(0), I::Drop, I::LocalGet(fa), I::End, I::LocalSet(fb)]);
                }
            }
        }
        c.extend([I::LocalGet(fa), I::LocalGet(fb), I::LocalGet(ex), I::LocalGet(acc)]);
        let name = format!("f{}", f);
        mb.func(Some(&name), &ps, &locals, &locals, c);
        for _ in 0..3 {
            let a = match r.below(5) {
                0 => sizes[0] as u64,
                1 => 0xffffffff,
                _ => r.below(sizes[0] as usize) as u64,
            };
            calls.push(call(&name, vec![(T::I32, a), (T::I32, r.below(sizes[1] as usize) as u64), (T::Fn, 0), (T::Ex, 0)]));
        }
    }
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C11
pub fn c11_forms(cx: &mut Cx) -> V {
    let ops = sweep::select_ops();
    forms(cx, &ops, 30, 5, (1, Some(1)))
}
/// thousands of instructions, hundreds of locals, hundreds of pending operands
pub fn long_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    mb.datas.push(Da::Active(0, (0..=255u8).map(|x| x.wrapping_mul(113).wrapping_add(7)).collect()));
    let nl = *r.pick(&[4usize, 40, 200, 300, 1000]);
    let ps = [T::I32, T::I64, T::F32, T::F64];
    let mut locals: Vec<T> = (0..nl).map(|_| num(r)).collect();
    locals.extend(ps);
    let mut all = ps.to_vec();
    all.extend(&locals);
    let of = |r: &mut Rng, t: T| -> u32 {
        for _ in 0..60 {
            let k = r.below(all.len());
            if all[k] == t {
                return k as u32;
            }
        }
        ps.iter().position(|x| *x == t).unwrap() as u32
    };
    // float arithmetic is left to C02: floats are only moved here
    let depth = *r.pick(&[3usize, 20, 150, 500]);
    let len = *r.pick(&[100usize, 600, 3000]);
    let mut c = vec![];
    let mut st: Vec<T> = vec![];
    let mut deepest = 0;
    let mut ends: Vec<usize> = vec![]; // open blocks: operands below
    for _ in 0..len {
        let floor = ends.last().copied().unwrap_or(0);
        let have = st.len() - floor;
        let top = if have > 0 { st.last().copied() } else { None };
        let grow = st.len() < depth && r.chance(3, 5);
        match r.below(12) {
            _ if grow || have == 0 => {
                let t = num(r);
                match r.below(5) {
                    0 => c.push(cst(t, arg_bits(r, t))),
                    1 => {
                        c.push(i32c(r.below(248) as i64));
                        c.push(sweep::ld_of(t));
                    }
                    _ => c.push(I::LocalGet(of(r, t))),
                }
                st.push(t);
            }
            0 | 1 => {
                let t = top.unwrap();
                c.push(I::LocalSet(of(r, t)));
                st.pop();
            }
            2 | 3 => {
                let t = top.unwrap();
                c.push(I::LocalTee(of(r, t)));
            }
            4 | 5 if have >= 2 && matches!(st[st.len() - 1], T::I32 | T::I64) && st[st.len() - 2] == st[st.len() - 1] => {
                let t = top.unwrap();
                c.push(match (r.below(4), t) {
                    (0, T::I32) => I::I32Mul,
                    (1, T::I32) => I::I32Xor,
                    (2, T::I32) => I::I32Sub,
                    (_, T::I32) => I::I32Add,
                    (0, _) => I::I64Mul,
                    (1, _) => I::I64Xor,
                    (2, _) => I::I64Sub,
                    _ => I::I64Add,
                });
                st.pop();
            }
            6 if have >= 3 && st[st.len() - 1] == T::I32 && st[st.len() - 2] == st[st.len() - 3] => {
                c.push(I::Select);
                st.pop();
                st.pop();
            }
            7 => {
                let t = top.unwrap();
                let x = of(r, t);
                // overwrite a local whose old value may be pending
                if r.chance(1, 2) {
                    c.push(cst(t, arg_bits(r, t)));
                } else {
                    c.push(I::LocalGet(of(r, t)));
                }
                c.push(I::LocalSet(x));
            }
            8 if ends.len() < 30 => {
                c.push(I::Block(BlockType::Empty));
                ends.push(st.len());
            }
            9 if !ends.is_empty() && have == 0 => {
                c.push(I::End);
                ends.pop();
            }
            10 => {
                let t = top.unwrap();
                c.push(match t {
                    T::I32 => I::I64ExtendI32S,
                    T::I64 => I::I32WrapI64,
                    T::F32 => I::I32ReinterpretF32,
                    _ => I::I64ReinterpretF64,
                });
                *st.last_mut().unwrap() = match t {
                    T::I32 => T::I64,
                    T::I64 | T::F32 => T::I32,
                    _ => T::I64,
                };
            }
            11 if st.len() > 8 && r.chance(1, 3) => {
                c.push(I::Drop);
                st.pop();
            }
            _ => {
                let t = top.unwrap();
                c.push(I::LocalSet(of(r, t)));
                st.pop();
            }
        }
        deepest = deepest.max(st.len());
    }
    // fold everything that is pending into the last locals
    let acc = all.len() as u32 - 3;
    loop {
        let floor = ends.last().copied().unwrap_or(0);
        while st.len() > floor {
            let t = st.pop().unwrap();
            match t {
                T::I32 => c.push(I::I64ExtendI32U),
                T::F32 => c.extend([I::I32ReinterpretF32, I::I64ExtendI32U]),
                T::F64 => c.push(I::I64ReinterpretF64),
                _ => {}
            }
            c.extend([I::LocalGet(acc), I::I64Const(7), I::I64Rotl, I::I64Xor, I::LocalSet(acc)]);
        }
        if ends.pop().is_none() {
            break;
        }
        c.push(I::End);
    }
    for (k, t) in all.iter().enumerate() {
        if k as u32 == acc {
            continue;
        }
        c.push(I::LocalGet(k as u32));
        match t {
            T::I32 => c.push(I::I64ExtendI32U),
            T::F32 => c.extend([I::I32ReinterpretF32, I::I64ExtendI32U]),
            T::F64 => c.push(I::I64ReinterpretF64),
            _ => {}
        }
        c.extend([I::LocalGet(acc), I::I64Const(7), I::I64Rotl, I::I64Xor, I::LocalSet(acc)]);
    }
    c.push(I::LocalGet(acc));
    mb.func(Some("f"), &ps, &[T::I64], &locals, c);
    let calls: Vec<Call> = (0..4).map(|_| call("f", args(r, &ps))).collect();
    cx.add("deepest operand stacks, summed", deepest as u64);
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C12
/// every kind of trap in every context; then the instance is used again
pub fn traps_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(2)));
    mb.datas.push(Da::Passive(vec![1, 2, 3]));
    mb.global(T::I64, true, 5);
    mb.tables.push((T::Fn, 6, Some(6)));
    let fd = mb.func(None, &[], &[T::I64], &[], vec![I::I64Const(4)]);
    mb.elems.push(El::Active { table: None, off: 1, funcs: vec![fd] });
    let other = mb.ty(&[T::F32], &[]);
    let nul = mb.ty(&[], &[T::I64]);
    let z = |b: u32| I::F32Const(f32::from_bits(b));
    let zd = |b: u64| I::F64Const(f64::from_bits(b));
    let l = || I::LocalGet(0); // the trapping operand: chosen by the caller
    let kinds: Vec<(Vec<I<'static>>, T, u64)> = vec![
        (vec![I::Unreachable], T::I32, 0),
        (vec![i32c(7), l(), I::I32DivS, I::Drop], T::I32, 0),
        (vec![i32c(7), l(), I::I32DivU, I::Drop], T::I32, 0),
        (vec![i32c(7), l(), I::I32RemS, I::Drop], T::I32, 0),
        (vec![i32c(7), l(), I::I32RemU, I::Drop], T::I32, 0),
        (vec![i32c(i32::MIN as i64), l(), I::I32DivS, I::Drop], T::I32, 0xffffffff),
        (vec![I::I64Const(7), l(), I::I64DivS, I::Drop], T::I64, 0),
        (vec![I::I64Const(7), l(), I::I64DivU, I::Drop], T::I64, 0),
        (vec![I::I64Const(7), l(), I::I64RemS, I::Drop], T::I64, 0),
        (vec![I::I64Const(7), l(), I::I64RemU, I::Drop], T::I64, 0),
        (vec![I::I64Const(i64::MIN), l(), I::I64DivS, I::Drop], T::I64, u64::MAX),
        (vec![l(), I::I32TruncF32S, I::Drop], T::F32, 0x7fc00000),
        (vec![l(), I::I32TruncF32U, I::Drop], T::F32, 0xbf800000),
        (vec![l(), I::I64TruncF32S, I::Drop], T::F32, 0x7f800000),
        (vec![l(), I::I64TruncF32U, I::Drop], T::F32, 0x5f800000),
        (vec![l(), I::I32TruncF64S, I::Drop], T::F64, 0x41e0000000000000),
        (vec![l(), I::I32TruncF64U, I::Drop], T::F64, 0x41f0000000000000),
        (vec![l(), I::I64TruncF64S, I::Drop], T::F64, 0x43e0000000000000),
        (vec![l(), I::I64TruncF64U, I::Drop], T::F64, 0xbff0000000000000),
        (vec![z(0x7f800001), I::I32TruncF32S, I::Drop], T::I32, 0),
        (vec![zd(0xfff0000000000000), I::I64TruncF64S, I::Drop], T::I32, 0),
        (vec![l(), I::I64Load(ma(0, 0)), I::Drop], T::I32, 65529),
        (vec![l(), I::I32Load8U(ma(0, 0)), I::Drop], T::I32, 65536),
        (vec![l(), I::I32Const(9), I::I32Store(ma(1, 0))], T::I32, 65533),
        (vec![l(), I::I64Const(9), I::I64Store8(ma(65535, 0))], T::I32, 1),
        (vec![l(), i32c(1), i32c(2), I::MemoryFill(0)], T::I32, 65535),
        (vec![l(), i32c(0), i32c(100), I::MemoryCopy { src_mem: 0, dst_mem: 0 }], T::I32, 65500),
        (vec![i32c(0), l(), i32c(3), I::MemoryInit { mem: 0, data_index: 0 }], T::I32, 1),
        (vec![l(), I::CallIndirect { type_index: nul, table_index: 0 }, I::Drop], T::I32, 6),
        (vec![l(), I::CallIndirect { type_index: nul, table_index: 0 }, I::Drop], T::I32, 3),
        (vec![z(0), l(), I::CallIndirect { type_index: other, table_index: 0 }], T::I32, 1),
        (vec![l(), I::TableGet(0), I::Drop], T::I32, 6),
        (vec![l(), cst(T::Fn, 0), I::TableSet(0)], T::I32, 0xffffffff),
        (vec![l(), cst(T::Fn, 0), i32c(2), I::TableFill(0)], T::I32, 5),
    ];
    mb.func(Some("probe"), &[], &[T::I64, T::I64, T::I32], &[], vec![I::GlobalGet(0), i32c(0), I::I64Load(ma(0, 0)), I::MemorySize(0)]);
    let mut calls = vec![];
    for k in 0..10 {
        let which = if cx.thorough { r.below(kinds.len()) } else { (cx.idx as usize * 10 + k) % kinds.len() };
        let (code, t, bad) = &kinds[which];
        let mut c: Vec<I<'static>> = vec![];
        // effects that precede the trap stay
        let eff = |c: &mut Vec<I<'static>>, r: &mut Rng| match r.below(4) {
            0 => c.extend([i32c(0), I::I64Const(r.u32() as i64), I::I64Store(ma(0, 0))]),
            1 => c.extend([I::I64Const(r.u32() as i64), I::GlobalSet(0)]),
            2 => c.extend([i32c(4), i32c(1), I::TableGet(0), I::TableSet(0)]),
            _ => c.extend([i32c(100), i32c(r.below(256) as i64), i32c(50), I::MemoryFill(0)]),
        };
        for _ in 0..r.below(3) {
            eff(&mut c, r);
        }
        for _ in 0..r.below(4) {
            c.push(I::I64Const(8));
        }
        let below = c.iter().filter(|i| matches!(i, I::I64Const(8))).count();
        let ctx = r.below(8);
        match ctx {
            1 => {
                c.push(I::Block(BlockType::Empty));
                c.extend(code.iter().cloned());
                c.push(I::End);
            }
            2 => {
                // the second round of a loop traps: the first one has its effects
                c.push(I::Loop(BlockType::Empty));
                c.extend([I::GlobalGet(0), I::I64Const(1), I::I64Add, I::GlobalSet(0)]);
                c.extend([I::LocalGet(1), i32c(1), I::I32Add, I::LocalTee(1), i32c(2), I::I32LtU, I::BrIf(0)]);
                c.extend(code.iter().cloned());
                c.push(I::End);
            }
            3 => {
                c.extend([i32c(1), I::If(BlockType::Empty)]);
                c.extend(code.iter().cloned());
                c.push(I::Else);
                c.push(I::Unreachable);
                c.push(I::End);
            }
            _ => c.extend(code.iter().cloned()),
        }
        eff(&mut c, r);
        for _ in 0..below {
            c.push(I::Drop);
        }
        c.push(I::I64Const(77));
        let name = format!("t{}", k);
        let mut f = mb.func(if ctx < 4 { Some(&name) } else { None }, &[*t], &[T::I64], &[T::I32], c);
        if ctx >= 4 {
            // in a callee, one or more levels down
            let lv = if ctx == 7 { 30 } else { 1 + r.below(3) };
            for d in 0..lv {
                let mut c = vec![];
                eff(&mut c, r);
                c.push(I::I64Const(-1));
                c.push(I::LocalGet(0));
                c.push(I::Call(f));
                c.push(I::I64Add);
                eff(&mut c, r);
                f = mb.func(if d + 1 == lv { Some(&name) } else { None }, &[*t], &[T::I64], &[], c);
            }
        }
        for v in [*bad, arg_bits(r, *t), *bad] {
            calls.push(call(&name, vec![(*t, v)]));
            calls.push(call("probe", vec![]));
        }
    }
    (mb.finish(), calls)
}

// ------------------------------------------------------------------ C01 - C03
/// values close to where integer and floating-point behaviour changes
pub fn dense(r: &mut Rng, t: T) -> u64 {
    match t {
        T::I32 | T::I64 => {
            let w = if t == T::I32 { 32 } else { 64 };
            let p = |r: &mut Rng| 1u64.wrapping_shl(r.below(w) as u32);
            let x = match r.below(11) {
                9 | 10 => {
                    // between two floats: a mantissa, half a unit, and one more or less
                    let k = *r.pick(&[24usize, 53, 23, 25, 52, 54]).min(&(w - 2));
                    let s = 1 + r.below(w - k);
                    let m = (r.u64() | 1 << 63) >> (64 - k);
                    (m << s).wrapping_add((1 << (s - 1)) + r.below(3) as u64 - 1)
                }
                0 => p(r).wrapping_add(r.below(4) as u64),
                1 => p(r).wrapping_sub(1 + r.below(4) as u64),
                2 => p(r).wrapping_neg().wrapping_add(r.below(5) as u64).wrapping_sub(2),
                3 => p(r) | p(r),
                4 => p(r).wrapping_sub(p(r)),
                5 => (r.below(256) as u64).wrapping_mul(0x0101010101010101),
                6 => r.below(200) as u64,
                7 => (r.below(200) as u64).wrapping_neg(),
                _ => r.u64() >> r.below(w),
            };
            if w == 32 { x & 0xffffffff } else { x }
        }
        T::F32 => {
            let e = *r.pick(&[0u32, 1, 2, 23, 24, 100, 125, 126, 127, 128, 129, 130, 134, 148, 149, 150, 151, 152, 156, 157, 158, 159, 160, 180, 188, 189, 190, 191, 192, 200, 252, 253, 254, 255]);
            let e = if r.chance(1, 4) { r.below(256) as u32 } else { e };
            let m = match r.below(9) {
                0 => 0,
                1 => 1,
                2 => 0x7fffff,
                3 => 0x7ffffe,
                4 => 0x400000 + r.below(3) as u32 - 1,
                5 => 1 << r.below(23),
                6 => 0x7fffff ^ (1 << r.below(23)),
                7 => 0x7fffff << r.below(23),
                _ => r.u32(),
            } & 0x7fffff;
            ((r.below(2) as u32) << 31 | e << 23 | m) as u64
        }
        _ => {
            let e = *r.pick(&[
                0u64, 1, 2, 52, 53, 870, 873, 874, 895, 896, 897, 898, 1021, 1022, 1023, 1024, 1025, 1026, 1045, 1046, 1047, 1048, 1052, 1053, 1054, 1055, 1056, 1074, 1075, 1076, 1077, 1084, 1085, 1086, 1087,
                1088, 1149, 1150, 1151, 2044, 2045, 2046, 2047,
            ]);
            let e = if r.chance(1, 4) { r.below(2048) as u64 } else { e };
            let all = (1u64 << 52) - 1;
            let m = match r.below(11) {
                0 => 0,
                1 => 1,
                2 => all,
                3 => all - 1,
                4 => (1u64 << 51) + r.below(3) as u64 - 1,
                5 => 1 << r.below(52),
                6 => all ^ (1 << r.below(52)),
                7 => all << r.below(52),
                // ties of the conversion to f32 (the last 29 bits)
                8 => (r.u64() & !0x1fffffff) | 0x10000000,
                9 => (r.u64() & !0x1fffffff) | (0x10000000 + r.below(3) as u64 - 1),
                _ => r.u64(),
            } & all;
            (r.below(2) as u64) << 63 | e << 52 | m
        }
    }
}
fn near(r: &mut Rng, t: T, x: u64) -> u64 {
    let w32 = matches!(t, T::I32 | T::F32);
    let y = match r.below(8) {
        0 => x,
        1 => match t {
            T::I32 | T::I64 => x.wrapping_neg(),
            T::F32 => x ^ 0x80000000,
            _ => x ^ 1 << 63,
        },
        2 => x.wrapping_add(1),
        3 => x.wrapping_sub(1),
        4 => !x,
        _ => dense(r, t),
    };
    if w32 { y & 0xffffffff } else { y }
}
pub fn dense_case(cx: &mut Cx, ops: &[sweep::Op], n: usize) -> V {
    let r = &mut cx.r;
    let mut mb = MB::new();
    let mut calls = vec![];
    for (i, o) in ops.iter().enumerate() {
        if o.code.is_empty() {
            continue;
        }
        let ps: Vec<T> = o.params.iter().map(|p| p.0).collect();
        let res = [o.result.unwrap()];
        let mut c: Vec<I<'static>> = (0..ps.len() as u32).map(I::LocalGet).collect();
        c.extend(o.code.iter().cloned());
        let name = format!("v{}", i);
        mb.func(Some(&name), &ps, &res, &[], c);
        for k in 0..n {
            let x = dense(r, ps[0]);
            let mut a = vec![(ps[0], x)];
            if ps.len() > 1 {
                let y = near(r, ps[1], x);
                a.push((ps[1], y));
            }
            if k < 3 {
                // the same operands as constants
                let mut c: Vec<I<'static>> = vec![];
                let name = format!("c{}_{}", i, k);
                let which = if ps.len() > 1 { k } else { 2 };
                for (j, p) in a.iter().enumerate() {
                    c.push(if which == 2 || which == j { cst(p.0, p.1) } else { I::LocalGet(j as u32) });
                }
                c.extend(o.code.iter().cloned());
                mb.func(Some(&name), &ps, &res, &[], c);
                calls.push(Call { name, args: a.clone() });
            }
            calls.push(Call { name: name.clone(), args: a });
        }
    }
    cx.add("operand tuples", calls.len() as u64);
    let w = mb.finish();
    lockstep(cx, &w, &calls)
}
pub fn c01_dense(cx: &mut Cx) -> V {
    dense_case(cx, &sweep::int_ops(), 40)
}
pub fn c02_dense(cx: &mut Cx) -> V {
    dense_case(cx, &sweep::float_ops(), 60)
}
pub fn c03_dense(cx: &mut Cx) -> V {
    dense_case(cx, &sweep::conv_ops(), 100)
}

// ------------------------------------------------------------------ C06, C17
/// segments dropped and used in turn; an init from a dropped segment traps and ends the history
pub fn drops_m(cx: &mut Cx) -> M {
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    let n = r.range(1, 6);
    let mut lens = vec![];
    for k in 0..n {
        let len = *r.pick(&[1usize, 2, 9, 40]);
        let b: Vec<u8> = (0..len).map(|i| (i * 3 + 16 * k + 1) as u8).collect();
        lens.push((len, r.chance(1, 5)));
        mb.datas.push(if lens[k].1 { Da::Active(500 + 50 * k as i32, b) } else { Da::Passive(b) });
    }
    let mut calls = vec![];
    // segments still whole, in the order of the calls
    let mut live: Vec<bool> = lens.iter().map(|x| !x.1).collect();
    for f in 0..6 {
        let mut c = vec![];
        for _ in 0..r.range(1, 6) {
            let k = r.below(n);
            match r.below(5) {
                0 | 1 if r.chance(1, 2) => {
                    c.push(I::DataDrop(k as u32));
                    live[k] = false;
                }
                0 | 1 => c.extend([I::LocalGet(0), I::I64Const(3), I::I64Mul, I::LocalSet(0)]),
                2 if live[k] => {
                    let s = r.below(lens[k].0 + 1);
                    c.extend([i32c(r.below(300) as i64), i32c(s as i64), i32c(r.below(lens[k].0 - s + 1) as i64), I::MemoryInit { mem: 0, data_index: k as u32 }]);
                }
                3 => c.extend([i32c(r.below(300) as i64), i32c(0), i32c(0), I::MemoryInit { mem: 0, data_index: k as u32 }]),
                _ => c.extend([I::LocalGet(0), i32c(r.below(300) as i64), I::I64Load(ma(0, 0)), I::I64Add, I::LocalSet(0)]),
            }
        }
        if r.chance(1, 3) {
            let k = r.below(n);
            c.extend([i32c(8), i32c(0), i32c(1), I::MemoryInit { mem: 0, data_index: k as u32 }]);
            if !live[k] {
                c.push(I::Nop);
            }
        }
        c.push(I::LocalGet(0));
        let name = format!("f{}", f);
        mb.func(Some(&name), &[T::I64], &[T::I64], &[], c);
        let a = args(r, &[T::I64]);
        calls.push(call(&name, a));
    }
    (mb.finish(), calls)
}
macro_rules! alone {
    ($($n:ident $m:ident),*) => { $(pub fn $n(cx: &mut Cx) -> V {
        let (w, c) = $m(cx);
        lockstep(cx, &w, &c)
    })* };
}
alone!(br_tables br_tables_m, exits exits_m, signatures signatures_m, slots slots_m, recursion recursion_m, bulk bulk_m, boundary boundary_m, walk walk_m, globals globals_m, refs refs_m, long long_m, traps traps_m, drops drops_m);
/// any of the shapes, with at most `n` of its calls in a random place
pub fn some(cx: &mut Cx, n: usize) -> M {
    let which = cx.r.below(17);
    let (w, mut c) = match which {
        0 | 1 => br_tables_m(cx),
        2 | 3 => exits_m(cx),
        4 | 5 => signatures_m(cx),
        6 => slots_m(cx),
        7 | 8 => recursion_m(cx),
        9 => bulk_m(cx),
        10 => walk_m(cx),
        11 => globals_m(cx),
        12 | 13 => refs_m(cx),
        14 => traps_m(cx),
        15 => drops_m(cx),
        _ => long_m(cx),
    };
    if c.len() > n {
        // a history of grows must start where it starts
        let k = if which == 10 || which == 15 { 0 } else { cx.r.below(c.len() - n + 1) };
        c = c[k..k + n].to_vec();
    }
    (w, c)
}
