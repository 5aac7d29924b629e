//! C20: the same programs in both builds; every case leaves a digest that run.py compares.
use crate::chk::*;
use crate::ckpt;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::props;
use crate::refi::*;

fn prof(cx: &mut Cx) -> Prof {
    let b = base();
    match cx.r.below(10) {
        0 => Prof { tw: [3, 3, 3, 3], e_num: 60, e_conv: 30, trap: 20, mid: 6, stmts: (3, 10), ..props::straight() },
        1 => Prof { e_ctrl: 25, s_ctrl: 25, s_br: 25, depth: 5, multi: 6, refs: true, ..b },
        2 => Prof { e_call: 25, e_ind: 12, s_call: 20, funcs: (3, 9), maxp: 9, multi: 6, fuel: 120, trap: 10, refs: true, ..b },
        3 => Prof { e_load: 30, s_store: 30, s_bulk: 16, s_ctrl: 4, tw: [4, 3, 2, 2], oob: 100, s_grow: 4, ..b },
        4 => Prof { e_size: 10, s_grow: 25, e_load: 12, s_store: 10, s_bulk: 5, oob: 40, s_call: 10, ..b },
        5 => Prof { globals: (2, 12), e_global: 30, s_gset: 35, s_call: 10, mid: 25, tw: [3, 3, 2, 2], refs: true, ..b },
        6 => Prof { refs: true, s_table: 30, e_ind: 15, e_size: 4, trap: 25, e_select: 8, globals: (2, 8), ..b },
        7 => Prof { mid: 45, e_tee: 18, e_select: 8, s_mix: 25, s_set: 30, s_ctrl: 6, locals: (10, 60), depth: 5, stmts: (3, 12), ..b },
        8 => Prof { trap: 150, oob: 40, unreach: 150, e_host: 4, s_host: 12, s_gset: 12, s_store: 12, s_call: 12, refs: true, ..b },
        _ => Prof { e_host: 10, s_host: 20, ..b },
    }
}
/// one run, digested
fn observe(cx: &mut Cx, wasm: &[u8], calls: &[Call], n: usize, h: &HostModel, e: &Expect, o: &RunOpt) -> Result<u64, String> {
    host::reset(h.clone());
    let ci = load(wasm, &argv_of(h))?;
    let mut d = 7;
    for c in &calls[..n] {
        let co = call(&ci, &c.name, &c.args, o);
        d = dig_out(d, &co);
        if co == COut::Ckpt {
            return Err("unasked checkpoint".into());
        }
        if matches!(co, COut::Trap(_)) {
            // the instance stays usable for a host; both builds must leave the same
            cx.add("traps compared", 1);
        }
    }
    Ok(dig_state(d, &state(&ci), e.view.nd.iter()))
}
/// any program: compared with the reference, run with and without checkpointing, interrupted once
pub fn any(cx: &mut Cx) -> V {
    let p = prof(cx);
    let pr = program(&mut cx.r, &p);
    judge(cx, &pr.wasm, &pr.calls, pr.host_seed, 60_000)
}
/// the structured programs of C04 to C12
pub fn shapes(cx: &mut Cx) -> V {
    let (w, c) = crate::shape::some(cx, 12);
    judge(cx, &w, &c, 1, 60_000)
}
/// indices, memories and functions beyond 2^16
pub fn large(cx: &mut Cx) -> V {
    let (w, c) = crate::big::few(cx, 4);
    crate::big::deep(|| judge(cx, &w, &c, 1, 5_000_000))
}
fn judge(cx: &mut Cx, wasm: &[u8], calls: &[Call], host_seed: u64, fuel: u64) -> V {
    let h = HostModel::new(host_seed);
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match ckpt::reference(cx, wasm, calls, &h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    if let Some(d) = check_run(wasm, calls, &h, &e, true, &RunOpt::default()) {
        return V::Bad(d);
    }
    let n = e.outs.len();
    let mut d = match observe(cx, wasm, calls, n, &h, &e, &RunOpt::default()) {
        Ok(d) => d,
        Err(_) => return V::Discard,
    };
    cx.add("runs digested", 1);
    let ck = cx.r.below(n);
    let at = 1 + if cx.r.chance(1, 2) { cx.r.u64() % 40 } else { cx.r.u64() % 4000 };
    match ckpt::interrupted(wasm, calls, &h, &e, ck, &mut |s| if s == 0 { Some(at) } else { None }, &ckpt::CR) {
        Ok(r) => {
            d = fnv(&[r.ckpts as u8], d);
            cx.add("checkpoints taken and resumed", r.ckpts);
        }
        Err(x) => return V::Bad(format!("checkpoint at poll {}: {}", at, x)),
    }
    cx.dig = d;
    V::Ok
}
/// integer programs without an oracle: many calls on one instance, several million instructions
pub fn long(cx: &mut Cx) -> V {
    let b = base();
    let p = Prof {
        tw: [5, 4, 0, 0],
        e_conv: 0,
        e_host: 1,
        s_host: 2,
        iters: 12,
        fuel: 90,
        trap: if cx.r.chance(1, 2) { 0 } else { 4 },
        unreach: 0,
        depth: 5,
        refs: cx.r.chance(1, 2),
        s_grow: 0,
        ..b
    };
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    cx.case(&pr.wasm, cut(&format!("{:?} host seed {}", pr.calls, h.seed), 20000));
    let m = match RModule::decode(&pr.wasm) {
        Ok(m) => m,
        Err(e) => return V::Bad(e),
    };
    // a first run of the reference rules out programs that are too long
    let e = expect_m(&m, &pr.calls, &h, 200_000, false);
    if e.discard() || e.inst.is_err() {
        return V::Discard;
    }
    let reps = 1 + (40_000 / e.used.max(1)) as usize;
    let calls: Vec<Call> = (0..reps.min(300)).flat_map(|_| pr.calls.clone()).collect();
    cx.observe(&e);
    cx.add("instructions without a reference (estimate)", e.used * reps as u64);
    match observe(cx, &pr.wasm, &calls, calls.len(), &h, &e, &RunOpt::default()) {
        Ok(d) => {
            cx.dig = d;
            V::Ok
        }
        Err(x) => V::Bad(x),
    }
}
