//! C29: functions imported from other instances.
use crate::chk::*;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::mb::*;
use crate::refi::*;
use chiwawa::execution::module::ImportObjects;
use chiwawa::execution::value::Externval;
use wasm_encoder::Instruction as I;

/// where an instance's imports come from: (import module, import name) -> (instance, export)
struct Node {
    wasm: Vec<u8>,
    imports: Vec<(String, String, usize, String)>,
    calls: Vec<Call>,
}
/// exported numeric functions: name, parameters, results
fn exported(wasm: &[u8]) -> Vec<(String, Vec<T>, Vec<T>)> {
    let m = match RModule::decode(wasm) {
        Ok(m) => m,
        Err(_) => return vec![],
    };
    let mut v = vec![];
    for e in &m.exports {
        if e.1 != wasmparser::ExternalKind::Func {
            continue;
        }
        let f = &m.funcs[e.2 as usize];
        if f.import.is_some() && f.import.as_ref().unwrap().0.starts_with("wasi") {
            continue;
        }
        let t = &m.types[f.ty];
        let (p, r): (Vec<T>, Vec<T>) = (t.params.iter().map(|x| t_of(*x)).collect(), t.results.iter().map(|x| t_of(*x)).collect());
        if p.iter().chain(&r).all(|x| matches!(x, T::I32 | T::I64 | T::F32 | T::F64)) {
            v.push((e.0.clone(), p, r));
        }
    }
    v
}
fn prof(cx: &mut Cx) -> Prof {
    let mut p = match cx.r.below(4) {
        0 => Prof { e_host: 5, s_host: 10, ..base() },
        1 => Prof { globals: (2, 6), e_global: 15, s_gset: 15, trap: 15, multi: 6, ..base() },
        2 => Prof { e_load: 14, s_store: 14, s_grow: 4, e_size: 5, ..base() },
        _ => Prof { e_ind: 10, refs: true, s_table: 8, trap: 10, multi: 6, ..base() },
    };
    p.fuel = 25;
    p.funcs = (2, 5);
    p
}
/// a module that imports functions and hands them on: exported again, called directly, through its
/// own table, and around changes of its own memory and globals
fn bridge(cx: &mut Cx, fs: &[(String, Vec<T>, Vec<T>)]) -> (Vec<u8>, Vec<Call>) {
    let mut mb = MB::new();
    let ids: Vec<u32> = fs.iter().map(|f| mb.import("lib", &f.0, &f.1, &f.2)).collect();
    mb.mem = Some((1 + cx.r.below(2) as u32, None));
    let g = mb.global(T::I32, true, 0);
    mb.tables.push((T::Fn, ids.len() as u32 + 2, None));
    mb.elems.push(El::Active { table: None, off: 1, funcs: ids.clone() });
    let mut calls = vec![];
    for (k, f) in fs.iter().enumerate() {
        if cx.r.chance(1, 2) {
            mb.extra_exports.push((format!("re{}", k), 0, ids[k]));
        }
        let args: Vec<I<'static>> = (0..f.1.len() as u32).map(I::LocalGet).collect();
        let mut c: Vec<I<'static>> = vec![I::I32Const(16), I::GlobalGet(g), I::I32Const(1), I::I32Add, I::GlobalSet(g), I::GlobalGet(g), I::I32Store(ma(0, 0))];
        c.extend(args.iter().cloned());
        match cx.r.below(3) {
            0 => c.push(I::Call(ids[k])),
            _ => {
                let ty = mb.ty(&f.1, &f.2);
                c.push(I::I32Const(k as i32 + 1));
                c.push(I::CallIndirect { type_index: ty, table_index: 0 });
            }
        }
        let n = mb.func(Some(&format!("via{}", k)), &f.1, &f.2, &[], c);
        // twice, the second time through the wrapper
        if f.2.is_empty() {
            let mut c: Vec<I<'static>> = args.clone();
            c.push(I::Call(ids[k]));
            c.extend(args.iter().cloned());
            c.push(I::Call(n));
            mb.func(Some(&format!("two{}", k)), &f.1, &f.2, &[], c);
        }
        let a = |cx: &mut Cx| f.1.iter().map(|t| (*t, arg_bits(&mut cx.r, *t))).collect::<Vec<_>>();
        calls.push(Call { name: format!("via{}", k), args: a(cx) });
        if f.2.is_empty() && cx.r.chance(1, 2) {
            calls.push(Call { name: format!("two{}", k), args: a(cx) });
        }
    }
    mb.func(Some("seen"), &[], &[T::I32, T::I32, T::I32], &[], vec![I::GlobalGet(g), I::I32Const(16), I::I32Load(ma(0, 0)), I::MemorySize(0)]);
    calls.push(Call { name: "seen".into(), args: vec![] });
    (mb.finish(), calls)
}
fn pick_imports(cx: &mut Cx, nodes: &[Node], from: &[usize], max: usize) -> Vec<(String, Vec<T>, Vec<T>, usize, String)> {
    let mut all = vec![];
    for i in from {
        for (n, p, r) in exported(&nodes[*i].wasm) {
            all.push((p, r, *i, n));
        }
    }
    let mut v = vec![];
    let mut seen = std::collections::HashSet::new();
    let k = 1 + cx.r.below(max);
    while v.len() < k && !all.is_empty() {
        let j = cx.r.below(all.len());
        let (p, r, i, n) = all.swap_remove(j);
        // one import per function, so that references keep one name
        if seen.insert((i, n.clone())) {
            v.push((format!("x{}", v.len()), p, r, i, n));
        }
    }
    v
}
pub fn linked(cx: &mut Cx) -> V {
    let mut nodes: Vec<Node> = vec![];
    let nexp = 1 + cx.r.below(2);
    let mut seeds = vec![];
    for _ in 0..nexp {
        if cx.r.chance(1, 4) {
            let (w, c) = crate::shape::some(cx, 4);
            seeds.push(1);
            nodes.push(Node { wasm: w, imports: vec![], calls: c });
            continue;
        }
        let p = prof(cx);
        let pr = program(&mut cx.r, &p);
        seeds.push(pr.host_seed);
        nodes.push(Node { wasm: pr.wasm, imports: vec![], calls: pr.calls });
    }
    if cx.r.chance(1, 3) {
        // a second instance of the same module
        let w = nodes[0].wasm.clone();
        let c = nodes[0].calls.clone();
        nodes.push(Node { wasm: w, imports: vec![], calls: c });
    }
    if cx.r.chance(1, 2) {
        let from: Vec<usize> = (0..nodes.len()).collect();
        let im = pick_imports(cx, &nodes, &from, 5);
        let fs: Vec<_> = im.iter().map(|x| (x.0.clone(), x.1.clone(), x.2.clone())).collect();
        let (w, calls) = bridge(cx, &fs);
        nodes.push(Node { wasm: w, imports: im.into_iter().map(|x| ("lib".to_string(), x.0, x.3, x.4)).collect(), calls });
    }
    let nimp = 1 + cx.r.below(2);
    for _ in 0..nimp {
        let from: Vec<usize> = (0..nodes.len()).collect();
        let im = pick_imports(cx, &nodes, &from, 6);
        let mut p = prof(cx);
        p.linked = im.iter().map(|x| (x.0.clone(), x.1.clone(), x.2.clone())).collect();
        p.e_call = 16;
        p.s_call = 16;
        p.e_ind = 8;
        let pr = program(&mut cx.r, &p);
        nodes.push(Node { wasm: pr.wasm, imports: im.into_iter().map(|x| ("lib".to_string(), x.0, x.3, x.4)).collect(), calls: pr.calls });
    }
    // calls on all instances, mixed
    let mut sched: Vec<(usize, Call)> = vec![];
    let mut at = vec![0; nodes.len()];
    let total: usize = nodes.iter().map(|n| n.calls.len()).sum();
    for _ in 0..total.min(14) {
        let k = cx.r.below(nodes.len());
        if let Some(c) = nodes[k].calls.get(at[k]) {
            sched.push((k, c.clone()));
            at[k] += 1;
        }
    }
    let last = nodes.len() - 1;
    if let Some(c) = nodes[last].calls.first() {
        sched.push((last, c.clone()));
    }
    let h = HostModel::new(seeds[0]);
    check(cx, &nodes, &sched, &h)
}
fn check(cx: &mut Cx, nodes: &[Node], sched: &[(usize, Call)], h: &HostModel) -> V {
    cx.case(&nodes.last().unwrap().wasm, cut(&format!("{} instances, imports {:?}, calls {:?}", nodes.len(), nodes.iter().map(|n| &n.imports).collect::<Vec<_>>(), sched), 20000));
    for (i, n) in nodes.iter().enumerate() {
        let _ = std::fs::write(format!("./node{}.wasm", i), &n.wasm);
    }
    // reference
    let mods: Vec<RModule> = match nodes.iter().map(|n| RModule::decode(&n.wasm)).collect() {
        Ok(m) => m,
        Err(e) => return V::Bad(format!("harness: {}", e)),
    };
    let mut rh = h.clone();
    let rhp: *mut HostModel = &mut rh;
    let mut insts: Vec<Box<RefInst>> = vec![];
    let mut ok = true;
    for (i, n) in nodes.iter().enumerate() {
        let (ri, r) = RefInst::new(&mods[i], unsafe { &mut *rhp });
        let mut ri = Box::new(ri);
        ok &= r.is_ok();
        ri.fuel = 20_000;
        ri.max_depth = DEPTH.with(|d| d.get());
        let mut k = 0;
        for f in mods[i].funcs.iter() {
            let link = match &f.import {
                Some((m, nm)) if !m.starts_with("wasi") => {
                    let (_, _, j, e) = n.imports.iter().find(|x| &x.0 == m && &x.1 == nm).expect("link");
                    let g = mods[*j].export_func(e).expect("export");
                    let p: *mut RefInst = &mut *insts[*j];
                    k += 1;
                    Some((p, g))
                }
                _ => None,
            };
            ri.links.push(link);
        }
        let _ = k;
        insts.push(ri);
    }
    if !ok {
        return V::Discard;
    }
    let mut outs = vec![];
    let mut used = 0;
    for (k, c) in sched {
        let args: Vec<RV> = c.args.iter().map(|a| rval(a.0, a.1)).collect();
        let f = mods[*k].export_func(&c.name).expect("export");
        insts[*k].used = 0;
        let o = insts[*k].invoke(f, &args);
        used += insts[*k].used;
        if matches!(o, Out::Fuel | Out::Ambiguous | Out::Exit(_)) {
            return V::Discard;
        }
        outs.push(o);
    }
    let views: Vec<RInstView> = insts.iter().map(|i| i.view()).collect();
    let cross: u64 = insts.iter().map(|i| i.calls).sum();
    drop(insts);
    // chiwawa
    host::reset(h.clone());
    let argv = argv_of(h);
    let mut cis: Vec<CInst> = vec![];
    for n in nodes {
        let mut im: ImportObjects = Default::default();
        for (m, nm, j, e) in &n.imports {
            match cis[*j].inst.get_export_func(e) {
                Ok(f) => {
                    im.entry(m.clone()).or_default().insert(nm.clone(), Externval::Func(f));
                }
                Err(e2) => return V::Bad(format!("export {} of instance {}: {:?}", e, j, e2)),
            }
        }
        let ci = parse(&n.wasm).and_then(|m| instantiate(m, im, argv.clone()));
        match ci {
            Ok(c) => {
                if let Some(m) = c.inst.mem_addrs.first() {
                    host::ctx().mems.push(m.clone());
                }
                cis.push(c)
            }
            Err(x) => return V::Bad(format!("instance {}: {}", cis.len(), x)),
        }
    }
    host::ctx().mem = None;
    for (i, ((k, c), ro)) in sched.iter().zip(&outs).enumerate() {
        let co = call(&cis[*k], &c.name, &c.args, &RunOpt::default());
        if let Some(d) = diff_out(ro, &co) {
            return V::Bad(format!("call {}, {} of instance {}: {}", i, c.name, k, d));
        }
    }
    if let Some(b) = host::ctx().bad.first() {
        return V::Bad(b.clone());
    }
    for (i, v) in views.iter().enumerate() {
        if let Some(d) = diff_state(v, &state(&cis[i])) {
            return V::Bad(format!("instance {}: {}", i, d));
        }
    }
    if let Some(d) = diff_log(&rh.log, &host::ctx().model.log) {
        return V::Bad(d);
    }
    cx.add("instances", nodes.len() as u64);
    cx.add("calls compared", outs.len() as u64);
    cx.add("function calls", cross);
    cx.add("wasm instructions executed (reference count)", used);
    let hh = fnv(cx.desc.clone().as_bytes(), fnv(&cx.wasm, 5));
    cx.nontrivial(hh);
    if cx.cov.samples.len() < 3 {
        let s = format!("linked#{}: {}", cx.idx, cut(&cx.desc, 400));
        cx.cov.samples.push(s);
    }
    V::Ok
}
/// imports that name a missing export or have another type
pub fn refused(cx: &mut Cx) -> V {
    let any = [T::I32, T::I64, T::F32, T::F64];
    let sig = |cx: &mut Cx| -> (Vec<T>, Vec<T>) { ((0..cx.r.below(5)).map(|_| *cx.r.pick(&any)).collect(), (0..cx.r.below(4)).map(|_| *cx.r.pick(&any)).collect()) };
    let n = 1 + cx.r.below(4);
    let sigs: Vec<_> = (0..n).map(|_| sig(cx)).collect();
    let mut lib = MB::new();
    for (i, s) in sigs.iter().enumerate() {
        let mut c: Vec<I<'static>> = vec![];
        for t in &s.1 {
            c.push(match t {
                T::I32 => I::I32Const(i as i32 + 7),
                T::I64 => I::I64Const(i as i64 + 7),
                T::F32 => I::F32Const(1.5),
                _ => I::F64Const(2.5),
            });
        }
        lib.func(Some(&format!("f{}", i)), &s.0, &s.1, &[], c);
    }
    let lw = lib.finish();
    let l = match load(&lw, &[]) {
        Ok(l) => l,
        Err(e) => return V::Bad(e),
    };
    let mut imp = MB::new();
    let bad = cx.r.below(n + n / 2 + 1);
    let mut why = "none";
    let mut im: ImportObjects = Default::default();
    for (i, s) in sigs.iter().enumerate() {
        let mut t = s.clone();
        let mut name = format!("f{}", i);
        let mut module = "lib".to_string();
        let mut give = true;
        if i == bad {
            match cx.r.below(7) {
                0 => {
                    name = format!("g{}", i);
                    why = "name not exported";
                    give = false;
                }
                1 => {
                    module = "bil".into();
                    why = "module not given";
                    give = false;
                }
                k => {
                    let side = if k < 5 { &mut t.0 } else { &mut t.1 };
                    match cx.r.below(3) {
                        0 => side.push(*cx.r.pick(&any)),
                        1 if !side.is_empty() => {
                            let j = cx.r.below(side.len());
                            side.remove(j);
                        }
                        _ => {
                            if side.is_empty() {
                                side.push(T::I64)
                            } else {
                                let j = cx.r.below(side.len());
                                let o = side[j];
                                while side[j] == o {
                                    side[j] = *cx.r.pick(&any);
                                }
                            }
                        }
                    }
                    why = "type differs";
                }
            }
        }
        let _ = give;
        imp.import(&module, &name, &t.0, &t.1);
        im.entry("lib".into()).or_default().insert(format!("f{}", i), Externval::Func(l.inst.get_export_func(&format!("f{}", i)).unwrap()));
    }
    imp.mem = Some((1, None));
    imp.func(Some("main"), &[], &[], &[], vec![I::Nop]);
    let w = imp.finish();
    cx.case(&w, format!("{:?}, import {}: {}", sigs, bad, why));
    let hh = fnv(&w, fnv(&lw, 9));
    cx.nontrivial(hh);
    let must = why == "none";
    match (must, parse(&w).and_then(|m| instantiate(m, im, vec![]))) {
        (true, Err(e)) => V::Bad(format!("matching imports are refused: {}", e)),
        (false, Ok(_)) => V::Bad(format!("an import is accepted although its {}", why)),
        (false, Err(e)) if e.starts_with("panic") => V::Bad(format!("{}: {}", why, e)),
        _ => {
            cx.add(if must { "matching imports accepted" } else { "wrong imports refused" }, 1);
            V::Ok
        }
    }
}
