//! How soon a checkpoint request is honoured, in guest instructions (reference count).
use crate::chk::*;
use crate::ckpt::*;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::mb::MB;
use crate::rng::Rng;
use wasm_encoder::BlockType;
use wasm_encoder::Instruction as I;

/// polls (= interpreter instructions) between two looks at the trigger file
const INTERVAL: u64 = 1024;
/// guest instructions that may correspond to one interpreter instruction in these programs
const RATIO: u64 = 4;

fn tick(c: &mut Vec<I<'static>>) {
    c.push(I::GlobalGet(0));
    c.push(I::I32Const(1));
    c.push(I::I32Add);
    c.push(I::GlobalSet(0));
}
/// some work that never diverges; the locals 0..4 are i32
fn work(r: &mut Rng, mb: &mut MB, c: &mut Vec<I<'static>>, leaves: &[u32], hosts: &[u32], n: usize) {
    for _ in 0..n {
        match r.below(9) {
            0 => {
                c.push(I::LocalGet(1));
                c.push(I::LocalGet(2));
                c.push(I::I32Add);
                c.push(I::LocalSet(1));
            }
            1 => {
                c.push(I::LocalGet(1));
                c.push(I::I32Const(13));
                c.push(I::I32Rotl);
                c.push(I::LocalSet(2));
            }
            2 => {
                c.push(I::GlobalGet(1));
                c.push(I::LocalGet(2));
                c.push(I::I32Xor);
                c.push(I::GlobalSet(1));
            }
            3 => {
                c.push(I::LocalGet(1));
                c.push(I::I32Const(0x7ffc));
                c.push(I::I32And);
                c.push(I::I32Load(ma(0, 2)));
                c.push(I::LocalSet(2));
            }
            4 => {
                c.push(I::I32Const(64));
                c.push(I::LocalGet(2));
                c.push(I::I32Store(ma(8, 2)));
            }
            5 if !leaves.is_empty() => {
                let f = *r.pick(leaves);
                c.push(I::LocalGet(1));
                if r.chance(1, 2) {
                    c.push(I::Call(f));
                } else {
                    let k = leaves.iter().position(|x| *x == f).unwrap();
                    let ty = mb.ty(&[T::I32], &[T::I32]);
                    c.push(I::I32Const(k as i32));
                    c.push(I::CallIndirect { type_index: ty, table_index: 0 });
                }
                c.push(I::LocalSet(2));
            }
            6 => {
                c.push(I::Block(BlockType::Empty));
                c.push(I::Block(BlockType::Empty));
                c.push(I::LocalGet(1));
                c.push(I::I32Const(1));
                c.push(I::I32And);
                if r.chance(1, 2) {
                    c.push(I::BrTable(vec![0].into(), 1));
                } else {
                    c.push(I::BrIf(0));
                    c.push(I::Br(1));
                }
                c.push(I::End);
                c.push(I::LocalGet(2));
                c.push(I::LocalSet(1));
                c.push(I::End);
            }
            7 => {
                c.push(I::LocalGet(1));
                c.push(I::If(BlockType::Result(T::I32.vt())));
                c.push(I::LocalGet(2));
                c.push(I::Else);
                c.push(I::I32Const(9));
                c.push(I::End);
                c.push(I::LocalSet(1));
            }
            _ if !hosts.is_empty() => {
                c.push(I::Call(*r.pick(hosts)));
                c.push(I::Drop);
            }
            _ => {
                c.push(I::LocalGet(1));
                c.push(I::I32Popcnt);
                c.push(I::LocalSet(3));
            }
        }
    }
}
struct Shape {
    wasm: Vec<u8>,
    name: &'static str,
    wasi: bool,
}
fn shape(r: &mut Rng) -> Shape {
    let mut mb = MB::new();
    let wasi = r.chance(1, 2);
    let mut hosts = vec![];
    if wasi {
        hosts.push(mb.import("wasi_snapshot_preview1", "sched_yield", &[], &[T::I32]));
    }
    mb.mem = Some((1, Some(2)));
    mb.global(T::I32, true, 0);
    mb.global(T::I32, true, 77);
    let nl = r.range(1, 3);
    let mut leaves = vec![];
    for _ in 0..nl {
        let mut c = vec![];
        tick(&mut c);
        let k = r.below(6);
        if r.chance(1, 3) {
            // a leaf with a loop of its own
            c.push(I::I32Const(1 + r.below(9) as i32));
            c.push(I::LocalSet(3));
            c.push(I::Loop(BlockType::Empty));
            tick(&mut c);
            work(r, &mut mb, &mut c, &[], &[], k.min(2));
            c.push(I::LocalGet(3));
            c.push(I::I32Const(1));
            c.push(I::I32Sub);
            c.push(I::LocalTee(3));
            c.push(I::I32Const(0));
            c.push(I::I32GtS);
            c.push(I::BrIf(0));
            c.push(I::End);
        } else {
            work(r, &mut mb, &mut c, &leaves, &[], k);
        }
        c.push(I::LocalGet(1));
        // work may use local 3 as scratch: keep loops bounded by re-reading only local 3 set above
        leaves.push(mb.func(None, &[T::I32], &[T::I32], &[T::I32, T::I32, T::I32, T::I32], c));
    }
    mb.tables.push((T::Fn, nl as u32, None));
    mb.elems.push(crate::mb::El::Active { table: None, off: 0, funcs: leaves.clone() });
    let kind = r.below(6);
    let name;
    let mut c: Vec<I<'static>> = vec![];
    let locals = [T::I32, T::I32, T::I32, T::I32, T::I32, T::I32];
    match kind {
        0 | 1 => {
            name = "loop";
            let n = 1 + r.below(12);
            let iters = 20_000 / (6 + 5 * n as i32);
            let nest = r.chance(1, 2);
            c.push(I::I32Const(iters));
            c.push(I::LocalSet(4));
            c.push(I::Loop(BlockType::Empty));
            tick(&mut c);
            work(r, &mut mb, &mut c, if nest { &leaves } else { &[] }, &hosts, n);
            if !hosts.is_empty() && r.chance(1, 2) {
                c.push(I::Call(hosts[0]));
                c.push(I::Drop);
            }
            c.push(I::LocalGet(4));
            c.push(I::I32Const(1));
            c.push(I::I32Sub);
            c.push(I::LocalTee(4));
            c.push(I::BrIf(0));
            c.push(I::End);
        }
        2 => {
            name = "straight";
            if let Some(h) = hosts.first() {
                c.push(I::Call(*h));
                c.push(I::Drop);
            }
            for _ in 0..600 {
                tick(&mut c);
                let k = r.range(1, 6);
                work(r, &mut mb, &mut c, &[], &[], k);
            }
        }
        3 => {
            name = "calls";
            if let Some(h) = hosts.first() {
                c.push(I::Call(*h));
                c.push(I::Drop);
            }
            for _ in 0..700 {
                let f = *r.pick(&leaves);
                c.push(I::LocalGet(1));
                c.push(I::Call(f));
                c.push(I::LocalSet(2));
            }
        }
        4 => {
            name = "tree recursion";
            // f(n): tick; n < 2 ? n : f(n-1) + f(n-2)
            let me = mb.next();
            let mut f = vec![];
            tick(&mut f);
            if let Some(h) = hosts.first() {
                if r.chance(1, 2) {
                    f.push(I::Call(*h));
                    f.push(I::Drop);
                }
            }
            f.push(I::LocalGet(0));
            f.push(I::I32Const(2));
            f.push(I::I32LtS);
            f.push(I::If(BlockType::Result(T::I32.vt())));
            f.push(I::LocalGet(0));
            f.push(I::Else);
            for k in 1..3 {
                f.push(I::LocalGet(0));
                f.push(I::I32Const(k));
                f.push(I::I32Sub);
                f.push(I::Call(me));
            }
            f.push(I::I32Add);
            f.push(I::End);
            mb.func(None, &[T::I32], &[T::I32], &[], f);
            if let Some(h) = hosts.first() {
                c.push(I::Call(*h));
                c.push(I::Drop);
            }
            c.push(I::I32Const(14));
            c.push(I::Call(me));
            c.push(I::LocalSet(1));
        }
        _ => {
            name = "deep recursion";
            let me = mb.next();
            let mut f = vec![];
            tick(&mut f);
            f.push(I::LocalGet(0));
            f.push(I::If(BlockType::Result(T::I32.vt())));
            f.push(I::LocalGet(0));
            f.push(I::I32Const(1));
            f.push(I::I32Sub);
            f.push(I::Call(me));
            // work on the way back
            tick(&mut f);
            let k = r.range(1, 6);
            for _ in 0..k {
                f.push(I::I32Const(3));
                f.push(I::I32Mul);
            }
            f.push(I::Else);
            f.push(I::I32Const(1));
            f.push(I::End);
            mb.func(None, &[T::I32], &[T::I32], &[], f);
            if let Some(h) = hosts.first() {
                c.push(I::Call(*h));
                c.push(I::Drop);
            }
            for _ in 0..4 {
                c.push(I::I32Const(380));
                c.push(I::Call(me));
                c.push(I::LocalSet(1));
            }
        }
    }
    c.push(I::LocalGet(1));
    mb.func(Some("main"), &[], &[T::I32], &locals, c);
    Shape { wasm: mb.finish(), name, wasi }
}
fn tick_of(ci: &CInst) -> u64 {
    match state(ci).globals.first() {
        Some(CV::I32(x)) => *x as u64,
        _ => u64::MAX,
    }
}
pub fn prompt(cx: &mut Cx) -> V {
    let s = shape(&mut cx.r);
    let calls = vec![Call { name: "main".into(), args: vec![] }];
    let mut h = HostModel::new(cx.r.u64());
    h.err = 0;
    TICK.with(|t| t.set(Some(0)));
    let e = reference(cx, &s.wasm, &calls, &h, 400_000);
    TICK.with(|t| t.set(None));
    let e = match e {
        Ok(e) => e,
        Err(v) => return v,
    };
    let resume_case = cx.r.chance(1, 3);
    // when the request appears, in reference instructions
    let (at_call, u0) = if s.wasi && !e.host_used.is_empty() && cx.r.chance(2, 3) {
        let k = cx.r.below(e.host_used.len());
        (k as u64 + 1, e.host_used[k])
    } else {
        (0, 0)
    };
    let r = run(cx, &s, &calls, &h, &e, at_call, u0, resume_case);
    natural();
    let _ = std::fs::remove_file(host::TRIGGER);
    let _ = std::fs::remove_file(IMG);
    match r {
        Ok(()) => V::Ok,
        Err(d) => V::Bad(format!("{} program ({} WASI imports), request {}: {}", s.name, if s.wasi { "with" } else { "no" }, if at_call > 0 { format!("during host call {}", at_call) } else { "before the start".into() }, d)),
    }
}
#[allow(clippy::too_many_arguments)]
fn run(cx: &mut Cx, s: &Shape, calls: &[Call], h: &HostModel, e: &Expect, at_call: u64, u0: u64, resume_case: bool) -> Result<(), String> {
    host::reset(h.clone());
    host::ctx().real_file = true;
    let _ = std::fs::remove_file(IMG);
    let _ = std::fs::remove_file(host::TRIGGER);
    let mut ci = load(&s.wasm, &[])?;
    host::ctx().trigger_at_call = at_call;
    let mut u0 = u0;
    let mut base_polls = 0;
    let mut co;
    if resume_case {
        // a first checkpoint by the hook, then the request is there when the run resumes
        let n = 3 + cx.r.u64() % (e.used / 40);
        fire(n);
        host::ctx().trigger_at_call = 0;
        co = call(&ci, "main", &[], &CR);
        if co == COut::Ckpt {
            u0 = tick_pos(e, tick_of(&ci));
            std::fs::write(host::TRIGGER, b"").map_err(|x| x.to_string())?;
            ci = load(&s.wasm, &[])?;
            natural();
            co = resume(&ci, IMG, &CR)?;
        } else {
            return Ok(());
        }
    } else {
        if at_call == 0 {
            std::fs::write(host::TRIGGER, b"").map_err(|x| x.to_string())?;
        }
        natural();
        co = call(&ci, "main", &[], &CR);
        base_polls = host::ctx().polls_at_trigger;
    }
    let p = polls();
    let left = e.used - u0;
    match co {
        COut::Ckpt => {
            let u1 = tick_pos(e, tick_of(&ci));
            let d = u1.saturating_sub(u0);
            cx.add("requests honoured", 1);
            cx.add("guest instructions between request and checkpoint, sum", d);
            if d > INTERVAL * RATIO + 200 {
                return Err(format!("{} guest instructions were executed before the checkpoint", d));
            }
            if p - base_polls > INTERVAL + 8 {
                return Err(format!("{} interpreter instructions were executed before the checkpoint", p - base_polls));
            }
        }
        ref o => {
            if left > INTERVAL * RATIO + 200 {
                return Err(format!("{} guest instructions after the request the run ended with {:?} and no checkpoint was taken", left, o));
            }
            cx.add("requests too late to be honoured", 1);
            return Ok(());
        }
    }
    if std::path::Path::new(host::TRIGGER).exists() {
        return Err("the trigger was not consumed".into());
    }
    if !std::path::Path::new(IMG).exists() {
        return Err("no checkpoint.bin was written".into());
    }
    // one request, one checkpoint
    ci = load(&s.wasm, &[])?;
    host::ctx().trigger_at_call = 0;
    let co = resume(&ci, IMG, &CR)?;
    if let Some(d) = diff_out(&e.outs[0], &co) {
        return Err(format!("after resuming: {}", d));
    }
    if let Some(d) = diff_state(&e.view, &state(&ci)) {
        return Err(format!("after resuming: {}", d));
    }
    if let Some(d) = diff_log(&e.log, &host::ctx().model.log) {
        return Err(format!("after resuming: {}", d));
    }
    let _ = calls;
    Ok(())
}
/// reference position of the given value of the tick
fn tick_pos(e: &Expect, t: u64) -> u64 {
    if t == 0 {
        0
    } else {
        e.tick_used.get(t as usize - 1).copied().unwrap_or(u64::MAX)
    }
}
