//! C13: the initial state of an instance.
use crate::chk::*;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::mb::*;
use crate::refi::*;
use crate::rng::Rng;
use chiwawa::execution::value::Externval;
use wasm_encoder::{BlockType, EntityType, GlobalType, Instruction as I, MemoryType, RefType, TableType};

fn name(r: &mut Rng, i: usize) -> String {
    match r.below(7) {
        0 => format!("\u{e9}\u{65e5}{}", i),
        1 => {
            let n = r.below(300);
            format!("{}{}", "n".repeat(n), i)
        }
        2 => format!("a b\t\"{}\"", i),
        3 => format!("_start{}", i),
        4 => format!("{}\0x", i),
        _ => format!("e{}", i),
    }
}
fn offset(r: &mut Rng, size: u64, len: u64, bad: bool) -> i32 {
    if bad {
        return match r.below(7) {
            0 => size.wrapping_sub(len).wrapping_add(1) as u32 as i32,
            1 => size.wrapping_add(1) as u32 as i32,
            2 => -1,
            3 => i32::MIN,
            4 => i32::MAX,
            5 => (0u32.wrapping_sub(len as u32)) as i32,
            _ => r.u32() as i32,
        };
    }
    let max = size - len;
    (match r.below(5) {
        0 => max,
        1 => 0,
        _ => r.u64() % (max + 1),
    }) as u32 as i32
}
/// a function that reports: calls through every table slot, reads of memory and globals
pub fn module(r: &mut Rng) -> (MB, Vec<Call>) {
    let mut mb = MB::new();
    let mut calls = vec![];
    let nwasi = r.below(3);
    for k in 0..nwasi {
        let n = ["sched_yield", "fd_close", "fd_sync"][k];
        let (p, q) = crate::wasi::sig(n);
        mb.import("wasi_snapshot_preview1", n, &p, &q);
    }
    // functions of two types returning their number
    let nf = 1 + r.below(8);
    let base = mb.imports.len() as u32;
    for k in 0..nf {
        let c = vec![I::I32Const(1000 + k as i32)];
        if r.chance(1, 3) {
            mb.func(None, &[T::I32], &[T::I32], &[], c);
        } else {
            mb.func(None, &[], &[T::I32], &[], c);
        }
    }
    let nfun = base + nf as u32;
    // tables
    let nt = if r.chance(1, 4) { 0 } else { 1 + r.below(3) };
    let mut fntabs = vec![];
    for k in 0..nt {
        let t = if r.chance(1, 4) && k > 0 { T::Ex } else { T::Fn };
        let min = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => r.below(3000) as u32,
            _ => r.below(24) as u32,
        };
        let max = match r.below(3) {
            0 => None,
            1 => Some(min),
            _ => Some(min + r.below(1000) as u32),
        };
        mb.tables.push((t, min, max));
        if t == T::Fn {
            fntabs.push(k as u32);
        }
    }
    // memory
    // WASI asks for a memory
    let mem = nwasi > 0 || r.chance(5, 6);
    let pages = match r.below(6) {
        0 => 0,
        1 => 2 + r.below(5) as u32,
        2 => r.below(200) as u32,
        _ => 1 + r.below(2) as u32,
    };
    if mem {
        let max = match r.below(4) {
            0 => None,
            1 => Some(pages),
            2 => Some(65536),
            _ => Some(pages + r.below(8) as u32),
        };
        mb.mem = Some((pages, max));
    }
    // globals
    let ng = r.below(12);
    for _ in 0..ng {
        let t = *r.pick(&[T::I32, T::I64, T::F32, T::F64, T::I32, T::I64, T::Fn, T::Ex]);
        let m = r.chance(1, 2);
        let b = arg_bits(r, t);
        let i = mb.global(t, m, if t.num() { b } else { 0 });
        if t == T::Fn && r.chance(1, 2) {
            mb.gfuncs.push((i as usize, r.u32() % nfun));
        }
    }
    let bad = r.chance(1, 8);
    // elements
    let ne = if fntabs.is_empty() { r.below(2) } else { r.below(6) };
    for _ in 0..ne {
        let len = match r.below(5) {
            0 => 0,
            1 => 1,
            _ => r.below(12),
        };
        let fs: Vec<u32> = (0..len).map(|_| r.u32() % nfun).collect();
        let its: Vec<Option<u32>> = (0..len).map(|_| if r.chance(1, 3) { None } else { Some(r.u32() % nfun) }).collect();
        let k = if fntabs.is_empty() { 7 } else { r.below(9) };
        mb.elems.push(match k {
            5 => El::Declared(fs),
            6 => El::DeclaredExpr(its),
            7 => El::Passive(fs),
            8 => El::PassiveExpr(its),
            _ => {
                let t = *r.pick(&fntabs);
                let size = mb.tables[t as usize].1 as u64;
                let evil = bad && r.chance(1, 2);
                if !evil && size < len as u64 {
                    continue;
                }
                let off = offset(r, size, len as u64, evil);
                if k < 2 {
                    El::ActiveExpr { table: t, off, items: its }
                } else {
                    El::Active { table: if t == 0 && r.chance(1, 2) { None } else { Some(t) }, off, funcs: fs }
                }
            }
        });
    }
    // functions named by ref.func in globals need a declaration only inside bodies; none here
    let nd = if mem { r.below(7) } else { r.below(2) };
    for _ in 0..nd {
        let size = pages as u64 * 65536;
        let len = match r.below(6) {
            0 => 0,
            1 => 1,
            2 => r.below(5000),
            _ => r.below(40),
        };
        let b: Vec<u8> = (0..len).map(|_| r.u32() as u8).collect();
        if !mem || r.chance(1, 5) {
            mb.datas.push(Da::Passive(b));
            continue;
        }
        let evil = bad && r.chance(1, 2);
        if !evil && size < len as u64 {
            continue;
        }
        let mut off = offset(r, size, len as u64, evil);
        if !evil && r.chance(1, 2) {
            // close to an earlier segment, so that they overlap
            if let Some(Da::Active(o, d)) = mb.datas.iter().rev().find(|d| matches!(d, Da::Active(..))) {
                let o2 = (*o as u32 as u64 + r.below(d.len() + 1) as u64).min(size - len as u64);
                off = o2 as u32 as i32;
            }
        }
        mb.datas.push(Da::Active(off, b));
    }
    // start function: counts itself, reads the initial state, may trap after effects
    let counter = mb.global(T::I32, true, 5);
    if r.chance(1, 2) {
        let mut c = vec![I::GlobalGet(counter), I::I32Const(1), I::I32Add, I::GlobalSet(counter)];
        if mem && pages > 0 {
            let a = r.below(60000) as i32;
            c.extend([I::I32Const(a), I::I32Const(a), I::I32Load8U(ma(1, 0)), I::I32Const(3), I::I32Add, I::I32Store8(ma(0, 0))]);
        }
        if nwasi > 0 && r.chance(1, 2) {
            c.extend([I::Call(0), I::GlobalGet(counter), I::I32Add, I::GlobalSet(counter)]);
        }
        if r.chance(1, 8) {
            c.push(I::Unreachable);
        }
        let f = mb.func(None, &[], &[], &[], c);
        mb.start = Some(f);
        if nwasi > 0 && false {
            mb.start = Some(0);
        }
    }
    // probes
    let f = mb.func(Some("counter"), &[], &[T::I32], &[], vec![I::GlobalGet(counter)]);
    let _ = f;
    calls.push(Call { name: "counter".into(), args: vec![] });
    let t0 = mb.ty(&[], &[T::I32]);
    for t in &fntabs {
        let n = format!("slot{}", t);
        mb.func(Some(&n), &[T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::CallIndirect { type_index: t0, table_index: *t }]);
        let size = mb.tables[*t as usize].1;
        for _ in 0..3 {
            let i = if r.chance(1, 8) { size } else { r.u32() % size.max(1) };
            calls.push(Call { name: n.clone(), args: vec![(T::I32, i as u64)] });
        }
    }
    if mem {
        mb.func(Some("size"), &[], &[T::I32], &[], vec![I::MemorySize(0)]);
        calls.push(Call { name: "size".into(), args: vec![] });
        mb.func(Some("load"), &[T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::I32Load8U(ma(0, 0))]);
        calls.push(Call { name: "load".into(), args: vec![(T::I32, r.below(70000) as u64)] });
    }
    for k in 0..mb.datas.len() {
        if mem && r.chance(1, 3) {
            // active segments count as dropped, passive ones can still be copied
            let n = format!("init{}", k);
            let len = match &mb.datas[k] {
                Da::Active(_, d) | Da::Passive(d) => d.len(),
            };
            mb.func(Some(&n), &[], &[], &[], vec![I::I32Const(1), I::I32Const(0), I::I32Const(len as i32), I::MemoryInit { mem: 0, data_index: k as u32 }]);
            calls.push(Call { name: n, args: vec![] });
        }
    }
    for (i, g) in mb.globals.clone().iter().enumerate() {
        if g.0.num() && r.chance(1, 2) {
            let n = format!("g{}", i);
            mb.func(Some(&n), &[], &[g.0], &[], vec![I::GlobalGet(i as u32)]);
            calls.push(Call { name: n, args: vec![] });
        }
    }
    // exports of every kind; several names may denote one thing
    let nx = r.below(8);
    for i in 0..nx {
        let n = name(r, i);
        match r.below(4) {
            0 => mb.extra_exports.push((n, 0, r.u32() % mb.next())),
            1 if nt > 0 => mb.extra_exports.push((n, 1, r.u32() % nt as u32)),
            2 if mem => mb.extra_exports.push((n, 2, 0)),
            _ => mb.extra_exports.push((n, 3, r.u32() % mb.globals.len() as u32)),
        }
    }
    let _ = BlockType::Empty;
    (mb, calls)
}
fn exports(ci: &CInst, m: &RModule) -> Option<String> {
    if ci.inst.exports.len() != m.exports.len() {
        return Some(format!("{} exports declared, {} present", m.exports.len(), ci.inst.exports.len()));
    }
    for (n, k, i) in &m.exports {
        let found: Vec<_> = ci.inst.exports.iter().filter(|e| e.name == *n).collect();
        if found.len() != 1 {
            return Some(format!("export {:?} appears {} times", n, found.len()));
        }
        let i = *i as usize;
        let ok = match (&found[0].value, k) {
            (Externval::Func(f), wasmparser::ExternalKind::Func) => {
                f.get_rc().as_ref().get() == ci.inst.func_addrs[i].get_rc().as_ref().get() && ci.inst.get_export_func(n).is_ok()
            }
            (Externval::Table(t), wasmparser::ExternalKind::Table) => std::ptr::eq(&*t.read_lock(), &*ci.inst.table_addrs[i].read_lock()),
            (Externval::Mem(x), wasmparser::ExternalKind::Memory) => x.data_ptr() == ci.inst.mem_addrs[i].data_ptr() && x.mem_size() == ci.inst.mem_addrs[i].mem_size(),
            (Externval::Global(g), wasmparser::ExternalKind::Global) => cv(&ci.inst, &g.get()) == cv(&ci.inst, &ci.inst.global_addrs[i].get()),
            _ => false,
        };
        if !ok {
            return Some(format!("export {:?} does not denote {:?} {}", n, k, i));
        }
        if !matches!(k, wasmparser::ExternalKind::Func) && ci.inst.get_export_func(n).is_ok() {
            return Some(format!("export {:?} of kind {:?} is offered as a function", n, k));
        }
    }
    for n in ["", "nothing", "e", "counte", "counterx", "Counter"] {
        if !m.exports.iter().any(|e| e.0 == n) && ci.inst.get_export_func(n).is_ok() {
            return Some(format!("a function {:?} is found that is not exported", n));
        }
    }
    None
}
pub fn layout(cx: &mut Cx) -> V {
    let (mut mb, calls) = module(&mut cx.r);
    let w = mb.finish();
    let h = HostModel::new(cx.r.u64());
    cx.case(&w, cut(&format!("{:?} host seed {}", calls, h.seed), 20000));
    let m = match RModule::decode(&w) {
        Ok(m) => m,
        Err(e) => return V::Bad(format!("harness: reference cannot decode the module: {}", e)),
    };
    // the state right after instantiation
    let e0 = expect_m(&m, &[], &h, 10_000, false);
    host::reset(h.clone());
    match (load(&w, &argv_of(&h)), &e0.inst) {
        (Err(x), Ok(())) => return V::Bad(format!("a valid module was not instantiated: {}", x)),
        (Ok(_), Err(x)) if !e0.started => return V::Bad(format!("instantiation must fail ({}), chiwawa instantiated the module", x)),
        (Err(_), Err(_)) => {
            cx.add("modules whose segments do not fit", 1);
            if !host::ctx().model.log.is_empty() {
                return V::Bad("a module that fails to instantiate made host calls".into());
            }
            let hh = fnv(&w, 1);
            cx.nontrivial(hh);
            return V::Ok;
        }
        (Ok(ci), _) => {
            if m.start.is_none() {
                if let Some(d) = diff_state(&e0.view, &state(&ci)) {
                    return V::Bad(format!("after instantiation: {}", d));
                }
            } else {
                cx.add("start functions", 1);
                let st = start(&ci);
                if st.is_ok() != e0.inst.is_ok() {
                    return V::Bad(format!("start function: specification {:?}, chiwawa {:?}", e0.inst, st));
                }
                if let Some(d) = diff_state(&e0.view, &state(&ci)) {
                    return V::Bad(format!("after the start function: {}", d));
                }
                if let Some(d) = diff_log(&e0.log, &host::ctx().model.log) {
                    return V::Bad(format!("after the start function: {}", d));
                }
            }
            if let Some(d) = exports(&ci, &m) {
                return V::Bad(d);
            }
            cx.add("exports checked", m.exports.len() as u64);
            cx.add("segments", (m.elems.len() + m.datas.len()) as u64);
        }
    }
    if e0.inst.is_err() {
        return V::Ok;
    }
    // and what programs see of it
    compare(cx, &w, &calls, &h, 10_000, false, &RunOpt::default())
}
/// imports that cannot be satisfied
pub fn imports(cx: &mut Cx) -> V {
    let mut mb = MB::new();
    let r = &mut cx.r;
    let nwasi = r.below(2);
    if nwasi > 0 {
        mb.import("wasi_snapshot_preview1", "sched_yield", &[], &[T::I32]);
    }
    let any = [T::I32, T::I64, T::F32, T::F64];
    let kind = r.below(6);
    let p: Vec<T> = (0..r.below(4)).map(|_| *r.pick(&any)).collect();
    let q: Vec<T> = (0..r.below(3)).map(|_| *r.pick(&any)).collect();
    let (mn, fnm) = (r.pick(&["env", "lib", "", "wasi"]).to_string(), r.pick(&["f", "g", "", "memory"]).to_string());
    match kind {
        0 | 1 => {
            mb.import(&mn, &fnm, &p, &q);
        }
        2 => mb.other_imports.push((mn.clone(), fnm.clone(), EntityType::Memory(MemoryType { minimum: 1, maximum: None, memory64: false, shared: false, page_size_log2: None }))),
        3 => mb.other_imports.push((mn.clone(), fnm.clone(), EntityType::Table(TableType { element_type: RefType::FUNCREF, minimum: 1, maximum: None, table64: false }))),
        4 => mb.other_imports.push((mn.clone(), fnm.clone(), EntityType::Global(GlobalType { val_type: T::I32.vt(), mutable: r.chance(1, 2), shared: false }))),
        _ => {}
    }
    if kind != 2 {
        mb.mem = Some((1, None));
    }
    let c = if nwasi > 0 { vec![I::Call(0), I::Drop] } else { vec![I::Nop] };
    let f = mb.func(Some("main"), &[], &[], &[], c);
    if r.chance(1, 2) {
        mb.start = Some(f);
    }
    let w = mb.finish();
    cx.case(&w, format!("import kind {} {}.{} {:?} -> {:?}", kind, mn, fnm, p, q));
    host::reset(HostModel::new(1));
    let hh = fnv(&w, 2);
    cx.nontrivial(hh);
    match (kind == 5, load(&w, &[])) {
        (true, Err(e)) => V::Bad(format!("a module without such imports is refused: {}", e)),
        (false, Ok(_)) => V::Bad("a module is instantiated although an import is not provided".into()),
        (false, Err(e)) if e.starts_with("panic") => V::Bad(format!("unsatisfied import: {}", e)),
        (ok, _) => {
            if !host::ctx().model.log.is_empty() {
                return V::Bad("host calls during instantiation".into());
            }
            cx.add(if ok { "modules with all imports" } else { "unsatisfied imports refused" }, 1);
            V::Ok
        }
    }
}
/// random programs with start functions
pub fn random(cx: &mut Cx) -> V {
    let p = Prof { start: true, refs: cx.r.chance(1, 2), s_table: 8, s_bulk: 6, globals: (1, 10), e_global: 15, e_ind: 8, fuel: 30, ..base() };
    crate::props::rnd(cx, &p, 30_000)
}
