//! The families of cases of each property.
use crate::chk::*;
use crate::ckpt;
use crate::exec::RunOpt;
use crate::gen::*;
use crate::hostmodel::HostModel;
use crate::shape;
use crate::sweep;

pub fn rnd(cx: &mut Cx, p: &Prof, fuel: u64) -> V {
    let pr = program(&mut cx.r, p);
    let h = HostModel::new(pr.host_seed);
    compare(cx, &pr.wasm, &pr.calls, &h, fuel, true, &RunOpt::default())
}
pub fn lockstep(cx: &mut Cx, wasm: &[u8], calls: &[Call]) -> V {
    let h = HostModel::new(1);
    compare(cx, wasm, calls, &h, 100_000_000, false, &RunOpt::default())
}
pub fn straight() -> Prof {
    Prof {
        e_ctrl: 0,
        e_call: 0,
        e_ind: 0,
        e_host: 0,
        s_ctrl: 0,
        s_br: 0,
        s_call: 0,
        s_host: 0,
        s_bulk: 0,
        s_table: 0,
        s_grow: 0,
        s_mix: 3,
        fuel: 0,
        table: false,
        ..base()
    }
}
fn sweep_case(cx: &mut Cx, ops: &[sweep::Op], per: u64, nv: usize) -> V {
    let from = cx.idx * per;
    if from >= sweep::total(ops) {
        // beyond the enumeration: the same combinations with other values
        let k = from % sweep::total(ops);
        let (w, c) = sweep::module(&mut cx.r, ops, k, per, nv, (1, Some(3)));
        return lockstep(cx, &w, &c);
    }
    let (w, c) = sweep::module(&mut cx.r, ops, from, per, nv, (1, Some(3)));
    cx.add("operand form x consumer combinations", per);
    lockstep(cx, &w, &c)
}
fn pairs_case(cx: &mut Cx, ops: &[sweep::Op]) -> V {
    let o = &ops[cx.idx as usize % ops.len()];
    let form = cx.idx / ops.len() as u64;
    if o.code.is_empty() && form > 0 {
        return V::Ok;
    }
    let mut p: Vec<Vec<u64>> = o.params.iter().map(|x| sweep::pool(x.0)).collect();
    if form >= 4 {
        // random operands
        let n = p[0].len() * 2;
        for (k, x) in o.params.iter().enumerate() {
            p[k] = (0..n).map(|_| arg_bits(&mut cx.r, x.0)).collect();
        }
    }
    if p.len() < 2 {
        p.push(vec![0]);
    }
    let (w, c) = sweep::pairs(o, form % 4, [&p[0], &p[1]]);
    cx.add("operand tuples", c.len() as u64);
    lockstep(cx, &w, &c)
}
const PER: u64 = 40;
fn n_sweep(ops: &[sweep::Op]) -> u64 {
    sweep::total(ops).div_ceil(PER)
}

// C01
fn c01_pairs(cx: &mut Cx) -> V {
    pairs_case(cx, &sweep::int_ops())
}
fn c01_forms(cx: &mut Cx) -> V {
    sweep_case(cx, &sweep::int_ops(), PER, 4)
}
fn c01_random(cx: &mut Cx) -> V {
    let p = Prof { tw: [5, 4, 0, 0], e_num: 60, trap: 20, mid: 6, stmts: (3, 10), ..straight() };
    rnd(cx, &p, 50_000)
}
// C02
fn c02_pairs(cx: &mut Cx) -> V {
    pairs_case(cx, &sweep::float_ops())
}
fn c02_forms(cx: &mut Cx) -> V {
    sweep_case(cx, &sweep::float_ops(), PER, 4)
}
fn c02_random(cx: &mut Cx) -> V {
    let p = Prof { tw: [1, 1, 5, 5], e_num: 60, mid: 6, stmts: (3, 10), ..straight() };
    rnd(cx, &p, 50_000)
}
// C03
fn c03_pairs(cx: &mut Cx) -> V {
    pairs_case(cx, &sweep::conv_ops())
}
fn c03_forms(cx: &mut Cx) -> V {
    sweep_case(cx, &sweep::conv_ops(), 10, 6)
}
fn c03_random(cx: &mut Cx) -> V {
    let p = Prof { tw: [3, 3, 3, 3], e_conv: 60, e_num: 15, trap: 30, stmts: (3, 10), ..straight() };
    rnd(cx, &p, 50_000)
}
// C04
fn c04_random(cx: &mut Cx) -> V {
    let p = Prof { e_ctrl: 25, s_ctrl: 25, s_br: 25, e_call: 2, e_host: 0, s_host: 0, depth: 5, multi: 6, refs: cx.r.chance(1, 4), ..base() };
    rnd(cx, &p, 60_000)
}
// C05
fn c05_random(cx: &mut Cx) -> V {
    let p = Prof { e_call: 25, e_ind: 12, s_call: 20, funcs: (3, 9), maxp: 9, multi: 6, fuel: 120, trap: 10, refs: cx.r.chance(1, 3), e_host: 1, ..base() };
    rnd(cx, &p, 80_000)
}
// C06
fn c06_random(cx: &mut Cx) -> V {
    let p = Prof { e_load: 30, s_store: 30, s_bulk: 16, s_ctrl: 4, tw: [4, 3, 2, 2], drops: cx.r.chance(1, 2), ..base() };
    rnd(cx, &p, 50_000)
}
// C07
fn c07_random(cx: &mut Cx) -> V {
    let p = Prof { e_load: 30, s_store: 30, s_bulk: 16, s_ctrl: 4, tw: [4, 3, 2, 2], oob: 120, s_grow: 3, ..base() };
    rnd(cx, &p, 50_000)
}
fn c08_random(cx: &mut Cx) -> V {
    let p = Prof { e_size: 10, s_grow: 25, e_load: 12, s_store: 10, s_bulk: 5, oob: 40, s_call: 10, ..base() };
    rnd(cx, &p, 50_000)
}
fn c09_random(cx: &mut Cx) -> V {
    let p = Prof { globals: (2, 12), e_global: 30, s_gset: 35, s_call: 10, mid: 25, tw: [3, 3, 2, 2], refs: cx.r.chance(1, 3), ..base() };
    rnd(cx, &p, 50_000)
}
fn c10_random(cx: &mut Cx) -> V {
    let p = Prof { refs: true, s_table: 30, e_ind: 15, e_size: 4, trap: 25, e_select: 8, globals: (2, 8), ..base() };
    rnd(cx, &p, 50_000)
}
fn c11_random(cx: &mut Cx) -> V {
    let k = cx.r.below(3);
    let p = Prof {
        mid: 45,
        e_tee: 18,
        e_select: 8,
        s_mix: 25,
        s_set: 30,
        s_ctrl: 6,
        locals: if k == 0 { (20, 60) } else { (2, 12) },
        tw: if k == 1 { [3, 3, 3, 3] } else { [6, 3, 1, 1] },
        depth: 5,
        stmts: (3, 12),
        refs: cx.r.chance(1, 4),
        ..base()
    };
    rnd(cx, &p, 60_000)
}
fn c12_random(cx: &mut Cx) -> V {
    let p = Prof { trap: 150, oob: 40, unreach: 150, e_host: 4, s_host: 12, s_gset: 12, s_store: 12, s_call: 12, refs: cx.r.chance(1, 3), ..base() };
    rnd(cx, &p, 60_000)
}

// C14, C15, C17
pub fn ck_prof(cx: &mut Cx) -> Prof {
    let k = cx.r.below(5);
    let b = Prof { stmts: (1, 5), funcs: (2, 6), depth: 4, ..base() };
    match k {
        0 => Prof { e_call: 14, e_ind: 6, s_call: 14, fuel: 40, refs: true, ..b },
        1 => Prof { e_host: 6, s_host: 14, ..b },
        2 => Prof { s_br: 16, s_ctrl: 16, e_ctrl: 14, multi: 6, tw: [3, 3, 3, 3], ..b },
        3 => Prof { mid: 40, s_mix: 20, e_tee: 12, tw: [4, 3, 2, 2], locals: (4, 20), ..b },
        _ => Prof { refs: true, s_table: 10, trap: 20, s_grow: 5, s_gset: 12, ..b },
    }
}
fn c14_random(cx: &mut Cx) -> V {
    let p = ck_prof(cx);
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    ckpt::single(cx, &pr.wasm, &pr.calls, &h, 4000, if cx.thorough { 60 } else { 14 })
}
fn c15_random(cx: &mut Cx) -> V {
    let p = ck_prof(cx);
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    ckpt::chain(cx, &pr.wasm, &pr.calls, &h, 6000, 3)
}
fn c17_random(cx: &mut Cx) -> V {
    let p = Prof {
        refs: true, s_table: 30, e_ind: 14, trap: 25, s_bulk: 14, drops: true, e_select: 8, stmts: (2, 6), e_size: 6, s_grow: 3, ..base()
    };
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    if cx.r.chance(1, 3) {
        ckpt::chain(cx, &pr.wasm, &pr.calls, &h, 6000, 2)
    } else {
        ckpt::single(cx, &pr.wasm, &pr.calls, &h, 4000, 10)
    }
}

fn c18_random(cx: &mut Cx) -> V {
    let p = match cx.r.below(4) {
        0 => Prof { e_host: 0, s_host: 0, iters: 40, fuel: 300, s_ctrl: 20, ..base() },
        1 => Prof { e_host: 4, s_host: 8, iters: 40, fuel: 300, s_ctrl: 20, ..base() },
        2 => Prof { trap: 60, unreach: 60, oob: 30, ..base() },
        _ => ck_prof(cx),
    };
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    ckpt::invisible(cx, &pr.wasm, &pr.calls, &h, 120_000)
}
fn c28_random(cx: &mut Cx) -> V {
    let p = ck_prof(cx);
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    let dir = std::env::var("VH_XDIR").unwrap_or_default();
    if std::env::var("VH_PHASE").as_deref() == Ok("read") {
        ckpt::xread(cx, &pr.wasm, &pr.calls, &h, 8000, &dir)
    } else {
        ckpt::xwrite(cx, &pr.wasm, &pr.calls, &h, 8000, &dir)
    }
}

fn c14_shapes(cx: &mut Cx) -> V {
    let (w, c) = shape::some(cx, 3);
    ckpt::single(cx, &w, &c, &HostModel::new(1), 100_000, if cx.thorough { 40 } else { 12 })
}
fn c15_shapes(cx: &mut Cx) -> V {
    let (w, c) = shape::some(cx, 2);
    ckpt::chain(cx, &w, &c, &HostModel::new(1), 60_000, 2)
}
fn c17_moves(cx: &mut Cx) -> V {
    let (w, c) = if cx.r.chance(3, 4) { shape::refs_m(cx) } else { shape::slots_m(cx) };
    let k = cx.r.below(c.len());
    let c = c[k..c.len().min(k + 6)].to_vec();
    if cx.r.chance(1, 3) {
        ckpt::chain(cx, &w, &c, &HostModel::new(1), 20_000, 2)
    } else {
        ckpt::single(cx, &w, &c, &HostModel::new(1), 20_000, 10)
    }
}
fn c17_drops(cx: &mut Cx) -> V {
    let (w, c) = shape::drops_m(cx);
    if cx.r.chance(1, 4) {
        ckpt::chain(cx, &w, &c, &HostModel::new(1), 20_000, 2)
    } else {
        ckpt::single(cx, &w, &c, &HostModel::new(1), 20_000, 10)
    }
}
fn c18_shapes(cx: &mut Cx) -> V {
    let (w, c) = shape::some(cx, 8);
    ckpt::invisible(cx, &w, &c, &HostModel::new(1), 120_000)
}
fn c28_shapes(cx: &mut Cx) -> V {
    let (w, c) = shape::some(cx, 3);
    let h = HostModel::new(1);
    let dir = std::env::var("VH_XDIR").unwrap_or_default();
    if std::env::var("VH_PHASE").as_deref() == Ok("read") {
        ckpt::xread(cx, &w, &c, &h, 8000, &dir)
    } else {
        ckpt::xwrite(cx, &w, &c, &h, 8000, &dir)
    }
}

pub fn families(prop: &str) -> Vec<Fam> {
    match prop {
        "C01" => {
            let o = sweep::int_ops();
            vec![
                fixed("pairs", o.len() as u64 * 6, o.len() as u64 * 60, c01_pairs),
                fixed("forms", n_sweep(&o), n_sweep(&o) * 6, c01_forms),
                fam("random", 8000, 300_000, c01_random),
                fam("dense", 2500, 100_000, shape::c01_dense),
            ]
        }
        "C02" => {
            let o = sweep::float_ops();
            vec![
                fixed("pairs", o.len() as u64 * 6, o.len() as u64 * 60, c02_pairs),
                fixed("forms", n_sweep(&o), n_sweep(&o) * 6, c02_forms),
                fam("random", 8000, 300_000, c02_random),
                fam("dense", 2500, 100_000, shape::c02_dense),
            ]
        }
        "C03" => {
            let o = sweep::conv_ops();
            let n = sweep::total(&o).div_ceil(10);
            vec![
                fixed("pairs", o.len() as u64 * 8, o.len() as u64 * 200, c03_pairs),
                fixed("forms", n, n * 20, c03_forms),
                fam("random", 8000, 300_000, c03_random),
                fam("dense", 2500, 100_000, shape::c03_dense),
            ]
        }
        "C04" => vec![fam("br_table", 3000, 100_000, shape::br_tables), fam("exits", 3000, 100_000, shape::exits), fam("random", 9000, 400_000, c04_random), fam("large", 12, 600, crate::big::control)],
        "C05" => vec![fam("signatures", 3000, 100_000, shape::signatures), fam("slots", 1500, 40_000, shape::slots), fam("recursion", 1500, 60_000, shape::recursion), fam("random", 6000, 300_000, c05_random), fam("large", 6, 300, crate::big::calls)],
        "C06" => vec![fam("forms", 3000, 100_000, shape::c06_forms), fam("bulk", 1500, 60_000, shape::bulk), fam("drops", 1500, 60_000, shape::drops), fam("random", 5000, 300_000, c06_random), fam("large", 24, 1000, crate::big::memory)],
        "C07" => vec![fam("forms", 3000, 100_000, shape::c07_forms), fam("boundary", 1500, 60_000, shape::boundary), fam("random", 5000, 300_000, c07_random)],
        "C08" => vec![fam("forms", 1500, 40_000, shape::c08_forms), fam("walk", 1000, 30_000, shape::walk), fam("random", 5000, 300_000, c08_random), fam("large", 18, 800, crate::big::pages)],
        "C09" => vec![fam("many", 4000, 150_000, shape::globals), fam("random", 7000, 300_000, c09_random), fam("large", 8, 400, crate::big::globals)],
        "C10" => vec![fam("forms", 3000, 100_000, shape::c10_forms), fam("moves", 4000, 150_000, shape::refs), fam("random", 7000, 300_000, c10_random), fam("large", 6, 300, crate::big::funcs)],
        "C11" => vec![fam("long", 1500, 50_000, shape::long), fam("select", 1500, 40_000, shape::c11_forms), fam("random", 9000, 400_000, c11_random), fam("large", 16, 800, crate::big::values)],
        "C12" => vec![fam("contexts", 4000, 150_000, shape::traps), fam("random", 8000, 400_000, c12_random)],
        "C13" => vec![fam("layout", 20_000, 500_000, crate::c13::layout), fam("random", 4000, 100_000, crate::c13::random), fixed("imports", 1000, 20_000, crate::c13::imports), fam("large", 12, 600, crate::big::declared)],
        "C14" => vec![fam("shapes", 1200, 40_000, c14_shapes), fam("random", 3000, 100_000, c14_random), fam("large", 18, 600, crate::big::image)],
        "C15" => vec![fam("shapes", 800, 40_000, c15_shapes), fam("random", 2000, 100_000, c15_random), fam("large", 9, 400, crate::big::images)],
        "C16" => vec![fam("prompt", 1500, 60_000, crate::c16::prompt)],
        "C18" => vec![fam("shapes", 2000, 80_000, c18_shapes), fam("random", 5000, 200_000, c18_random), fam("large", 18, 800, crate::big::invisible)],
        "C19" => vec![fam("damaged", 1500, 60_000, ckpt::damaged)],
        "C21" => vec![fam("valid", 30_000, 400_000, crate::wasi::valid), fixed("imports", 8000, 100_000, crate::wasi::imports), fixed("proc_raise", 1, 1, crate::wasi::raise), fam("large", 4000, 60_000, crate::wasi::large)],
        "C22" => vec![fam("hostile", 60_000, 400_000, crate::wasi::hostile), fam("large", 2000, 40_000, crate::wasi::hostile_large)],
        "C20" => vec![fixed("shapes", 6000, 150_000, crate::c20::shapes), fixed("any", 20_000, 400_000, crate::c20::any), fixed("long", 2000, 60_000, crate::c20::long), fixed("large", 18, 800, crate::c20::large)],
        "C25" => vec![fixed("known", crate::c25::KNOWN, crate::c25::KNOWN, crate::c25::known), fam("mutated", 100_000, 2_000_000, crate::c25::mutated), fam("truncated", 60, 2000, crate::c25::truncated), fixed("imports", 4000, 60_000, crate::wasi::imports), fam("large", 14, 600, crate::big::loading)],
        "C26" => vec![fam("neutral", 1500, 100_000, crate::c26::neutral), fam("faithful", 2000, 100_000, crate::c26::faithful), fam("neutral-shapes", 600, 30_000, crate::c26::neutral_shapes), fam("faithful-shapes", 600, 30_000, crate::c26::faithful_shapes), fam("faithful-long", 60, 3000, crate::c26::faithful_long), fam("large", 18, 600, crate::c26::neutral_large)],
        "C23" => vec![fam("deliver", 30_000, 800_000, crate::wasi::deliver), fam("large", 4000, 80_000, crate::wasi::deliver_large)],
        "C27" => vec![fam("mix", 6000, 800_000, crate::c27::mix)],
        "C29" => vec![fam("linked", 6000, 200_000, crate::c29::linked), fam("refused", 4000, 60_000, crate::c29::refused)],
        "C28" => vec![fixed("shapes", 1000, 40_000, c28_shapes), fixed("random", 3000, 100_000, c28_random), fixed("large", 18, 800, crate::big::portable)],
        "C17" => vec![fam("drops", 1500, 40_000, c17_drops), fam("moves", 1500, 40_000, c17_moves), fam("random", 2000, 100_000, c17_random), fam("large", 8, 300, crate::big::stored)],
        _ => vec![],
    }
}
/// operators whose execution makes a case relevant to the property
pub fn relevant(prop: &str) -> &'static [&'static str] {
    match prop {
        "C04" => &["Br", "BrIf", "BrTable", "If", "Loop", "Return"],
        "C05" => &["Call"],
        "C06" | "C07" => &["I32Load", "I64Load", "F32Load", "F64Load", "I32Store", "I64Store", "F32Store", "F64Store", "Memory"],
        "C08" => &["MemoryGrow", "MemorySize"],
        "C09" => &["Global"],
        "C17" => &["Table", "RefNull", "DataDrop", "MemoryInit"],
        "C10" => &["Table", "CallIndirect", "Ref"],
        _ => &[],
    }
}
