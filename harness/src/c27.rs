//! C27: memory errors of the interpreter itself. The cases of every other property, run where
//! AddressSanitizer and the library's unsafe-precondition checks (or Miri) watch.
use crate::chk::*;
use crate::exec::OPS;
use crate::gen::*;
use crate::hostmodel::HostModel;
use crate::mb::*;
use crate::props;
use crate::sweep;
use wasm_encoder::Instruction as I;

const FROM: [&str; 22] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C21", "C22", "C29",
];
fn from(cx: &mut Cx, p: &'static str) -> V {
    let f = props::families(p);
    let mut k = cx.r.below(f.len());
    // these take long (the ones with checkpoints too long under a sanitizer), and are the last
    if f[k].name == "large" && (matches!(p, "C14" | "C15" | "C17" | "C18" | "C28") || !cx.r.chance(1, 12)) {
        k = cx.r.below(f.len() - 1);
    }
    let f = &f[k];
    // where the enumerating families stand
    cx.idx = (cx.r.u64() % f.thorough.max(f.quick)) as u64;
    if f.name == "proc_raise" || (p == "C21" && f.name == "imports") {
        return V::Ok;
    }
    let v = (f.f)(cx);
    cx.add(p, 1);
    match v {
        // what the case's own property says about it is that property's business
        V::Bad(_) => {
            cx.add("cases that end otherwise than predicted", 1);
            V::Ok
        }
        v => v,
    }
}
pub fn mix(cx: &mut Cx) -> V {
    let p = FROM[cx.r.below(FROM.len())];
    from(cx, p)
}

// ------------------------------------------------------------------ prepared cases for Miri
/// One prepared run: module, calls, host, checkpoint positions (polls of the last call).
struct Pre {
    wasm: Vec<u8>,
    calls: Vec<Call>,
    host: u64,
    polls: Vec<u64>,
    ops: Vec<String>,
    pages: u32,
}
fn small() -> Prof {
    Prof { stmts: (1, 3), funcs: (1, 3), depth: 3, fuel: 12, iters: 3, ..base() }
}
fn tables(r: &mut crate::rng::Rng) -> (Vec<u8>, Vec<Call>) {
    // several functions of one signature reached through a table, with a trap at the end
    let mut mb = MB::new();
    let t = [T::I32, T::I64, T::F32, T::F64][r.below(4)];
    let n = 2 + r.below(3) as u32;
    for _ in 0..n {
        let c = match t {
            T::I32 => vec![I::LocalGet(0), I::I32Const(r.below(100) as i32), I::I32Add],
            T::I64 => vec![I::LocalGet(0), I::I64Const(3), I::I64Mul],
            T::F32 => vec![I::LocalGet(0), I::F32Const(1.5), I::F32Add],
            _ => vec![I::LocalGet(0), I::F64Const(1.5), I::F64Mul],
        };
        mb.func(None, &[t], &[t], &[], c);
    }
    mb.tables.push((T::Fn, n + 1, Some(n + 4)));
    mb.elems.push(El::Active { table: None, off: 0, funcs: (0..n).collect() });
    let ty = mb.ty(&[t], &[t]);
    let mut c: Vec<I<'static>> = vec![I::LocalGet(1)];
    for k in 0..n {
        c.push(I::I32Const(k as i32));
        c.push(I::CallIndirect { type_index: ty, table_index: 0 });
    }
    c.extend([I::I32Const(n as i32), I::I32Const(r.below(n as usize) as i32), I::TableGet(0), I::TableSet(0)]);
    c.push(I::LocalGet(0));
    c.push(I::CallIndirect { type_index: ty, table_index: 0 });
    mb.func(Some("t"), &[T::I32, t], &[t], &[], c);
    let a = |k: u64| Call { name: "t".into(), args: vec![(T::I32, k), (t, 5)] };
    (mb.finish(), vec![a(0), a(n as u64)])
}
fn prepare(r: &mut crate::rng::Rng, i: u64) -> Option<Pre> {
    use crate::ckpt::*;
    let k = i % 12;
    let j = i / 12;
    let some = |r: &mut crate::rng::Rng, o: Vec<sweep::Op>| {
        let n = sweep::total(&o);
        let at = (j.wrapping_mul(0x9e3779b97f4a7c15) ^ r.u64()) % n;
        let pages = r.chance(1, 4) as u32;
        sweep::module(r, &o, at, 6, 1, (pages, Some(1)))
    };
    let mut host = 1;
    let mut gen = |r: &mut crate::rng::Rng, p: Prof| {
        let p = Prof { mem: r.chance(1, 3), ..p };
        let g = program(r, &p);
        host = g.host_seed;
        (g.wasm, g.calls)
    };
    let (wasm, calls) = match k {
        0 => some(r, sweep::int_ops()),
        1 => some(r, sweep::float_ops()),
        2 => some(r, sweep::conv_ops()),
        3 => tables(r),
        4 => gen(r, Prof { e_ctrl: 25, s_ctrl: 25, s_br: 25, multi: 6, ..small() }),
        5 => gen(r, Prof { e_call: 20, e_ind: 12, s_call: 20, refs: true, multi: 6, ..small() }),
        6 => gen(r, Prof { e_load: 30, s_store: 30, s_bulk: 20, s_grow: 4, oob: 20, drops: true, ..small() }),
        7 => gen(r, Prof { globals: (2, 6), e_global: 30, s_gset: 30, refs: true, ..small() }),
        8 => gen(r, Prof { refs: true, s_table: 30, e_ind: 15, e_select: 8, ..small() }),
        9 => gen(r, Prof { mid: 45, e_tee: 18, s_mix: 25, tw: [3, 3, 3, 3], ..small() }),
        10 => gen(r, Prof { e_host: 20, s_host: 30, ..small() }),
        _ => gen(r, Prof { trap: 100, oob: 40, unreach: 60, ..small() }),
    };
    let h = HostModel::new(host);
    let m = crate::refi::RModule::decode(&wasm).ok()?;
    OPS.with(|x| x.set(true));
    let e = expect_m(&m, &calls, &h, 600, false);
    if e.discard() || e.outs.is_empty() {
        return None;
    }
    // how often the last call polls
    let last = e.outs.len() - 1;
    let n = interrupted(&wasm, &calls[..=last], &h, &e, last, &mut |_| None, &CR).ok()?.polls;
    let mut polls = vec![];
    if n > 0 && r.chance(1, 3) {
        polls.push(1 + r.u64() % n);
        if r.chance(1, 2) {
            polls.push(1 + r.u64() % n);
        }
    }
    Some(Pre { wasm, calls: calls[..=last].to_vec(), host, polls, ops: e.ops_seen.iter().map(|x| x.0.clone()).collect(), pages: (e.view.mem.as_ref().map(|m| m.len()).unwrap_or(0) >> 16) as u32 })
}
/// `vh pregen DIR SEED COUNT PARTS`: prepared cases, those that reach new operators first
pub fn pregen(dir: &str, seed: u64, count: usize, parts: usize) {
    let mut all = vec![];
    for i in 0..count as u64 * 2 {
        let mut r = crate::rng::Rng::new(mix64(seed ^ (i << 20)));
        if let Some(p) = prepare(&mut r, i) {
            all.push(p);
        }
    }
    let mut seen: std::collections::HashMap<String, u32> = Default::default();
    let mut pick = vec![];
    // greedy: rarest operators first
    while pick.len() < count && !all.is_empty() {
        let gain = |p: &Pre| -> f64 { p.ops.iter().map(|o| 1.0 / (1 + seen.get(o).copied().unwrap_or(0)).pow(2) as f64).sum::<f64>() / (0.3 + p.wasm.len() as f64 / 600.0 + p.pages as f64 * if p.polls.is_empty() { 1.0 } else { 4.0 }) };
        let best = (0..all.len()).max_by(|a, b| gain(&all[*a]).total_cmp(&gain(&all[*b]))).unwrap();
        let p = all.swap_remove(best);
        for o in &p.ops {
            *seen.entry(o.clone()).or_insert(0) += 1;
        }
        pick.push(p);
    }
    for k in 0..parts {
        let mine: Vec<_> = pick
            .iter()
            .skip(k)
            .step_by(parts)
            .map(|p| serde_json::json!({"wasm": p.wasm, "host": p.host, "polls": p.polls, "ops": p.ops,
                "calls": p.calls.iter().map(|c| serde_json::json!([c.name, c.args.iter().map(|a| serde_json::json!([format!("{:?}", a.0), a.1])).collect::<Vec<_>>()])).collect::<Vec<_>>()}))
            .collect();
        std::fs::write(format!("{}/{}.json", dir, k), serde_json::to_string(&mine).unwrap()).unwrap();
        let mut b: Vec<u8> = vec![];
        fn w(b: &mut Vec<u8>, x: u64) {
            b.extend_from_slice(&x.to_le_bytes())
        }
        for p in pick.iter().skip(k).step_by(parts) {
            w(&mut b, p.host);
            w(&mut b, p.polls.len() as u64);
            p.polls.iter().for_each(|x| w(&mut b, *x));
            w(&mut b, p.calls.len() as u64);
            for c in &p.calls {
                w(&mut b, c.name.len() as u64);
                b.extend_from_slice(c.name.as_bytes());
                w(&mut b, c.args.len() as u64);
                for a in &c.args {
                    w(&mut b, a.0 as u64);
                    w(&mut b, a.1);
                }
            }
            w(&mut b, p.wasm.len() as u64);
            b.extend_from_slice(&p.wasm);
        }
        std::fs::write(format!("{}/{}.bin", dir, k), b).unwrap();
    }
}
fn mix64(x: u64) -> u64 {
    let mut r = crate::rng::Rng::new(x);
    r.u64()
}
/// `vh rerun FILE SECONDS FROM`: run prepared cases; prints the number of the case before each
pub fn rerun(file: &str, secs: u64, from: u64) {
    use crate::ckpt::*;
    use crate::exec::*;
    let b = std::fs::read(file).unwrap();
    let mut at = 0;
    let t0 = std::time::Instant::now();
    let (mut i, mut done, mut calls_n, mut ck_n, mut traps) = (0u64, 0u64, 0u64, 0u64, 0u64);
    fn rd(b: &[u8], at: &mut usize) -> u64 {
        let x = u64::from_le_bytes(b[*at..*at + 8].try_into().unwrap());
        *at += 8;
        x
    }
    fn bytes(b: &[u8], at: &mut usize) -> Vec<u8> {
        let n = rd(b, at) as usize;
        *at += n;
        b[*at - n..*at].to_vec()
    }
    loop {
        let host = rd(&b, &mut at);
        let n = rd(&b, &mut at);
        let polls: Vec<u64> = (0..n).map(|_| rd(&b, &mut at)).collect();
        let n = rd(&b, &mut at);
        let mut calls = vec![];
        for _ in 0..n {
            let name = bytes(&b, &mut at);
            let l = rd(&b, &mut at);
            let args = (0..l)
                .map(|_| {
                    let t = rd(&b, &mut at);
                    let v = rd(&b, &mut at);
                    ([T::I32, T::I64, T::F32, T::F64, T::Fn, T::Ex][t as usize], v)
                })
                .collect();
            calls.push(Call { name: String::from_utf8(name).unwrap(), args });
        }
        let wasm = bytes(&b, &mut at);
        let end = at == b.len();
        if i >= from {
            eprintln!("case {}", i);
            let h = HostModel::new(host);
            crate::host::reset(h.clone());
            let argv = argv_of(&h);
            if let Ok(mut ci) = load(&wasm, &argv) {
                let last = calls.len() - 1;
                for (k, c) in calls.iter().enumerate() {
                    let cr = k == last && !polls.is_empty();
                    if cr {
                        fire(polls[0]);
                    } else {
                        never();
                    }
                    let mut o = call(&ci, &c.name, &c.args, &RunOpt { cr, ..Default::default() });
                    calls_n += 1;
                    let mut s = 0;
                    while o == COut::Ckpt {
                        s += 1;
                        ck_n += 1;
                        match parse(&wasm).and_then(|m| instantiate(m, Default::default(), argv.clone())) {
                            Ok(x) => ci = x,
                            Err(_) => break,
                        }
                        fire(polls.get(s).copied().unwrap_or(u64::MAX));
                        o = match resume(&ci, IMG, &CR) {
                            Ok(x) => x,
                            Err(_) => break,
                        };
                    }
                    if matches!(o, COut::Trap(_)) {
                        traps += 1;
                    }
                }
                let s = state(&ci);
                std::hint::black_box(&s);
            }
            done += 1;
        }
        i += 1;
        if end || t0.elapsed().as_secs() >= secs {
            break;
        }
    }
    println!("{{\"cases\": {}, \"calls\": {}, \"checkpoints\": {}, \"traps\": {}, \"all\": {}}}", done, calls_n, ck_n, traps, at == b.len());
}
