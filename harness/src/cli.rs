//! Cases for the command-line program built for wasm32-wasip1, run by tools/cli.py under wasmtime.
//! Every case says what the process must print and how it must end.
use crate::chk::*;
use crate::exec::{rval, t_of, DEPTH};
use crate::gen::*;
use crate::hostmodel::HostModel;
use crate::mb::*;
use crate::refi::*;
use crate::rng::Rng;
use crate::sweep;
use serde_json::{json, Value};
use wasm_encoder::{BlockType, Encode, Instruction as I, RawSection};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn leb(b: &[u8], at: &mut usize) -> u32 {
    let (mut v, mut s) = (0u32, 0);
    loop {
        let x = b[*at];
        *at += 1;
        v |= ((x & 0x7f) as u32) << s;
        s += 7;
        if x & 0x80 == 0 {
            return v;
        }
    }
}
fn grow(old: &[u8], add: &[u8]) -> Vec<u8> {
    let mut at = 0;
    let n = leb(old, &mut at);
    let mut v = vec![];
    (n + 1).encode(&mut v);
    v.extend_from_slice(&old[at..]);
    v.extend_from_slice(add);
    v
}
/// add the exported function `name`: () -> i64 to a module that has type, function, export and code sections
pub fn append(wasm: &[u8], name: &str, locals: &[(u32, wasm_encoder::ValType)], code: &[I<'static>]) -> Vec<u8> {
    let mut at = 8;
    let mut secs = vec![];
    while at < wasm.len() {
        let id = wasm[at];
        at += 1;
        let n = leb(wasm, &mut at) as usize;
        secs.push((id, wasm[at..at + n].to_vec()));
        at += n;
    }
    let count = |id: u8| -> u32 { secs.iter().find(|s| s.0 == id).map(|s| leb(&s.1, &mut 0)).unwrap_or(0) };
    let ty = count(1);
    let m = RModule::decode(wasm).unwrap();
    let fi = m.funcs.len() as u32;
    let mut out = wasm_encoder::Module::new();
    let mut body = wasm_encoder::Function::new(locals.iter().cloned());
    for i in code {
        body.instruction(i);
    }
    body.instruction(&I::End);
    let mut fb = vec![];
    let raw = body.into_raw_body();
    raw.len().encode(&mut fb);
    fb.extend(raw);
    for (id, b) in &secs {
        let nb = match id {
            1 => grow(b, &[0x60, 0, 1, 0x7e]),
            3 => {
                let mut e = vec![];
                ty.encode(&mut e);
                grow(b, &e)
            }
            7 => {
                let mut e = vec![];
                name.encode(&mut e);
                e.push(0);
                fi.encode(&mut e);
                grow(b, &e)
            }
            10 => grow(b, &fb),
            _ => b.clone(),
        };
        out.section(&RawSection { id: *id, data: &nb });
    }
    out.finish()
}
const H: u32 = 0;
const V: u32 = 1;
const A: u32 = 2;
const F3: u32 = 3;
const F6: u32 = 4;
fn mixin(c: &mut Vec<I<'static>>) {
    // hash = (hash ^ value) * prime, rotated
    c.extend([I::LocalSet(V), I::LocalGet(H), I::LocalGet(V), I::I64Xor, I::I64Const(0x100000001b3), I::I64Mul, I::I64Const(29), I::I64Rotl, I::LocalSet(H)]);
}
fn to64(c: &mut Vec<I<'static>>, t: T) {
    match t {
        T::I32 => c.push(I::I64ExtendI32U),
        T::I64 => {}
        T::F32 => c.extend([
            I::LocalTee(F3), I::LocalGet(F3), I::F32Eq, I::If(BlockType::Result(T::I64.vt())), I::LocalGet(F3), I::I32ReinterpretF32, I::I64ExtendI32U, I::Else,
            I::I64Const(77), I::End,
        ]),
        T::F64 => c.extend([
            I::LocalTee(F6), I::LocalGet(F6), I::F64Eq, I::If(BlockType::Result(T::I64.vt())), I::LocalGet(F6), I::I64ReinterpretF64, I::Else, I::I64Const(78), I::End,
        ]),
        _ => c.extend([I::RefIsNull, I::I64ExtendI32U]),
    }
}
/// a function that makes the calls and digests results, globals, tables and memory
pub fn with_main(wasm: &[u8], calls: &[Call], mem: bool) -> Vec<u8> {
    let m = RModule::decode(wasm).unwrap();
    let mut c: Vec<I<'static>> = vec![I::I64Const(-3750763034362895579), I::LocalSet(H)];
    for k in calls {
        for (t, b) in &k.args {
            c.push(match t {
                T::I32 => I::I32Const(*b as i32),
                T::I64 => I::I64Const(*b as i64),
                T::F32 => I::F32Const(f32::from_bits(*b as u32)),
                T::F64 => I::F64Const(f64::from_bits(*b)),
                x => sweep::nullref(*x),
            });
        }
        let f = m.export_func(&k.name).unwrap();
        c.push(I::Call(f));
        for t in m.types[m.funcs[f as usize].ty].results.iter().rev() {
            to64(&mut c, t_of(*t));
            mixin(&mut c);
        }
    }
    for (i, g) in m.globals.iter().enumerate().filter(|x| t_of(x.1 .0).num()) {
        c.push(I::GlobalGet(i as u32));
        to64(&mut c, t_of(g.0));
        mixin(&mut c);
    }
    for (i, t) in m.tables.iter().enumerate() {
        let (i, size) = (i as u32, t.0.min(1000) as i32);
        c.extend([I::I32Const(0), I::LocalSet(A), I::Block(BlockType::Empty), I::Loop(BlockType::Empty)]);
        c.extend([I::LocalGet(A), I::I32Const(size), I::I32GeU, I::BrIf(1), I::LocalGet(A), I::TableGet(i), I::RefIsNull, I::I64ExtendI32U]);
        mixin(&mut c);
        c.extend([I::LocalGet(A), I::I32Const(1), I::I32Add, I::LocalSet(A), I::Br(0), I::End, I::End]);
    }
    if mem && m.mem.is_some() {
        c.extend([I::MemorySize(0), I::I64ExtendI32U]);
        mixin(&mut c);
        c.extend([I::I32Const(0), I::LocalSet(A), I::Block(BlockType::Empty), I::Loop(BlockType::Empty)]);
        c.extend([I::LocalGet(A), I::MemorySize(0), I::I32Const(16), I::I32Shl, I::I32GeU, I::BrIf(1), I::LocalGet(A), I::I64Load(ma(0, 3))]);
        mixin(&mut c);
        c.extend([I::LocalGet(A), I::I32Const(8), I::I32Add, I::LocalSet(A), I::Br(0), I::End, I::End]);
    }
    c.push(I::LocalGet(H));
    use wasm_encoder::ValType as W;
    let w = append(wasm, "main", &[(2, W::I64), (1, W::I32), (1, W::F32), (1, W::F64)], &c);
    crate::puff::some(&w, 8).map(|x| x.0).unwrap_or(w)
}
fn show(v: &RV) -> Option<String> {
    Some(match v {
        RV::I32(x) => format!("Num(I32({:?}))", *x as i32),
        RV::I64(x) => format!("Num(I64({:?}))", *x as i64),
        RV::F32(x, _) => format!("Num(F32({:?}))", f32::from_bits(*x)),
        RV::F64(x, _) => format!("Num(F64({:?}))", f64::from_bits(*x)),
        _ => return None,
    })
}
fn text(r: &mut Rng, t: T, b: u64) -> String {
    let w = match t {
        T::I32 => format!("{}", b as u32 as i32),
        T::I64 => format!("{}", b as i64),
        T::F32 => {
            let x = f32::from_bits(b as u32);
            if r.chance(1, 2) { format!("{:?}", x) } else { format!("{}", x) }
        }
        _ => {
            let x = f64::from_bits(b);
            if r.chance(1, 2) { format!("{:e}", x) } else { format!("{}", x) }
        }
    };
    let n = match t {
        T::I32 => "I32",
        T::I64 => "I64",
        T::F32 => "F32",
        _ => "F64",
    };
    format!("{}({})", n, w)
}
/// NaNs cannot be written with a payload
fn plain(t: T, b: u64) -> u64 {
    match t {
        T::F32 if f32::from_bits(b as u32).is_nan() => 0x7fc00000,
        T::F64 if f64::from_bits(b).is_nan() => 0x7ff8000000000000,
        _ => b,
    }
}
fn prof(r: &mut Rng) -> Prof {
    let b = Prof { e_host: 0, s_host: 0, ..base() };
    match r.below(10) {
        0 => Prof { tw: [3, 3, 3, 3], e_num: 60, e_conv: 30, trap: 20, mid: 6, stmts: (3, 10), ..b },
        1 => Prof { e_ctrl: 25, s_ctrl: 25, s_br: 25, depth: 5, multi: 6, refs: true, ..b },
        2 => Prof { e_call: 25, e_ind: 12, s_call: 20, funcs: (3, 9), maxp: 9, multi: 6, fuel: 120, trap: 10, refs: true, ..b },
        3 => Prof { e_load: 30, s_store: 30, s_bulk: 16, s_ctrl: 4, tw: [4, 3, 2, 2], oob: 60, s_grow: 4, ..b },
        4 => Prof { e_size: 10, s_grow: 25, e_load: 12, s_store: 10, s_bulk: 5, oob: 20, s_call: 10, ..b },
        5 => Prof { globals: (2, 12), e_global: 30, s_gset: 35, s_call: 10, mid: 25, tw: [3, 3, 2, 2], refs: true, ..b },
        6 => Prof { refs: true, s_table: 30, e_ind: 15, e_size: 4, trap: 25, e_select: 8, globals: (2, 8), ..b },
        7 => Prof { mid: 45, e_tee: 18, e_select: 8, s_mix: 25, s_set: 30, s_ctrl: 6, locals: (10, 60), depth: 5, stmts: (3, 12), ..b },
        8 => Prof { trap: 100, oob: 40, unreach: 100, s_gset: 12, s_store: 12, s_call: 12, refs: true, ..b },
        _ => Prof { fuel: 2000, iters: 200, s_ctrl: 20, tw: [5, 4, 0, 0], ..b },
    }
}
fn expect1(wasm: &[u8], f: &str, args: &[(T, u64)], fuel: u64) -> Option<Out> {
    expect2(wasm, f, args, fuel).map(|x| x.0)
}
fn expect2(wasm: &[u8], f: &str, args: &[(T, u64)], fuel: u64) -> Option<(Out, u64)> {
    let m = RModule::decode(wasm).ok()?;
    let mut h = HostModel::new(1);
    let (mut ri, r) = RefInst::new(&m, &mut h);
    if r.is_err() {
        return None;
    }
    ri.fuel = fuel;
    ri.max_depth = DEPTH.with(|d| d.get());
    match ri.run_start() {
        None | Some(Out::Ok(_)) => {}
        _ => return None,
    }
    let a: Vec<RV> = args.iter().map(|x| rval(x.0, x.1)).collect();
    let o = ri.invoke(m.export_func(f)?, &a);
    match o {
        Out::Fuel | Out::Ambiguous | Out::Exit(_) => None,
        o => Some((o, ri.used)),
    }
}
fn outcome(o: &Out) -> Option<Value> {
    Some(match o {
        Out::Ok(v) if v.is_empty() => json!({"out": "", "code": 0}),
        Out::Ok(v) => {
            // of several results, the last
            let s = show(&v[v.len() - 1])?;
            json!({"out": hex(format!("Result: {}\n", s).as_bytes()), "code": 0})
        }
        _ => json!({"noresult": true, "message": true}),
    })
}
/// a random program, all of it digested by one function
fn program_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let p = prof(r);
    let p = Prof { start: r.chance(1, 8), ..p };
    let g = program(r, &p);
    // calls up to the first trap
    let m = RModule::decode(&g.wasm).ok()?;
    let h = HostModel::new(1);
    let e = expect_m(&m, &g.calls, &h, 200_000, true);
    if e.discard() || e.inst.is_err() || e.outs.is_empty() {
        return None;
    }
    let mut n = e.outs.len();
    if matches!(e.outs[n - 1], Out::Trap(_)) && r.chance(3, 4) {
        n -= 1;
    }
    let w = with_main(&g.wasm, &g.calls[..n], r.chance(2, 3));
    let o = expect1(&w, "main", &[], 2_000_000)?;
    Some((w, json!({"args": ["--invoke", "main"], "expect": outcome(&o)?, "cr": r.chance(1, 4)})))
}
/// an exported function with parameters and one result
fn call_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let p = prof(r);
    let multi = if r.chance(1, 2) { 1 } else { r.below(9) as usize };
    let g = program(r, &Prof { multi, ..p });
    let c = r.pick(&g.calls).clone();
    let args: Vec<(T, u64)> = c.args.iter().map(|a| (a.0, plain(a.0, a.1))).collect();
    let o = expect1(&g.wasm, &c.name, &args, 500_000)?;
    let e = outcome(&o)?;
    let ps = args.iter().map(|a| text(r, a.0, a.1)).collect::<Vec<_>>();
    let mut v: Vec<String> = match r.below(3) {
        0 => vec!["--invoke".into(), c.name.clone()],
        1 => vec!["-i".into(), c.name.clone()],
        _ => vec![format!("--invoke={}", c.name)],
    };
    if !ps.is_empty() {
        match r.below(3) {
            0 => v.extend(["--params".to_string(), ps.join(",")]),
            1 => {
                v.push("--params".into());
                v.extend(ps.clone())
            }
            _ => v.push(format!("-p={}", ps.join(","))),
        }
    }
    Some((g.wasm, json!({"args": v, "expect": e})))
}
/// a run with statistics or tracing, and the operators it executes
fn instr_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let p = prof(r);
    let g = program(r, &Prof { fuel: 60, iters: 4, ..p });
    let m = RModule::decode(&g.wasm).ok()?;
    let e = expect_m(&m, &g.calls, &HostModel::new(1), 4000, true);
    if e.discard() || e.inst.is_err() || e.outs.is_empty() {
        return None;
    }
    let mut n = e.outs.len();
    if matches!(e.outs[n - 1], Out::Trap(_)) && r.chance(3, 4) {
        n -= 1;
    }
    let w = with_main(&g.wasm, &g.calls[..n], false);
    let m = RModule::decode(&w).ok()?;
    let mut h = HostModel::new(1);
    let (mut ri, x) = RefInst::new(&m, &mut h);
    if x.is_err() {
        return None;
    }
    ri.fuel = 8000;
    ri.max_depth = DEPTH.with(|d| d.get());
    match ri.run_start() {
        None | Some(Out::Ok(_)) => {}
        _ => return None,
    }
    ri.tr = Some(vec![]);
    let o = ri.invoke(m.export_func("main")?, &[]);
    let t = ri.tr.take()?;
    if matches!(o, Out::Fuel | Out::Ambiguous | Out::Exit(_)) {
        return None;
    }
    let names: Vec<String> = t.iter().filter_map(|x| crate::c26::canon(&x.0)).collect();
    if names.len() > 2500 {
        return None;
    }
    Some((w, json!({"args": ["--invoke", "main"], "expect": outcome(&o)?, "instr": r.u64() >> 12, "trace": names})))
}
const WASI: &str = "wasi_snapshot_preview1";
struct Io {
    mb: MB,
    write: u32,
    exit: u32,
    read: u32,
    at: i32,
}
impl Io {
    fn new() -> Io {
        let mut mb = MB::new();
        let write = mb.import(WASI, "fd_write", &[T::I32; 4], &[T::I32]);
        let read = mb.import(WASI, "fd_read", &[T::I32; 4], &[T::I32]);
        let exit = mb.import(WASI, "proc_exit", &[T::I32], &[]);
        mb.mem = Some((3, None));
        Io { mb, write, exit, read, at: 1024 }
    }
    fn put(&mut self, b: &[u8]) -> i32 {
        let a = self.at;
        self.mb.datas.push(Da::Active(a, b.to_vec()));
        self.at += b.len() as i32 + 3;
        a
    }
    /// code that writes the chunks to fd with one fd_write
    fn say(&mut self, fd: i32, chunks: &[&[u8]]) -> Vec<I<'static>> {
        let mut v = vec![];
        for c in chunks {
            let a = self.put(c);
            v.extend(a.to_le_bytes());
            v.extend((c.len() as u32).to_le_bytes());
        }
        self.at = (self.at + 3) & !3;
        let a = self.put(&v);
        vec![I::I32Const(fd), I::I32Const(a), I::I32Const(chunks.len() as i32), I::I32Const(16), I::Call(self.write), I::Drop]
    }
}
fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(6) {
        0 => 0,
        1 => r.below(3000),
        _ => r.below(40),
    };
    let k = r.below(3);
    (0..n).map(|_| if k == 0 { r.u32() as u8 } else { *r.pick(b"abc \n\r\t\"Result: Num(I32(1))\n\0") }).collect()
}
/// output on both streams, then an end of some kind
fn streams_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut io = Io::new();
    let mut c = vec![];
    let (mut so, mut se) = (vec![], vec![]);
    for _ in 0..r.below(6) {
        let fd = 1 + r.below(2) as i32;
        // (a host may write only the first buffer that is not empty)
        let mut ch: Vec<Vec<u8>> = (0..r.below(3)).map(|_| vec![]).collect();
        ch.push(blob(r));
        ch.extend((0..r.below(3)).map(|_| vec![]));
        let rf: Vec<&[u8]> = ch.iter().map(|x| &x[..]).collect();
        c.extend(io.say(fd, &rf));
        for x in &ch {
            if fd == 1 { so.extend(x) } else { se.extend(x) }
        }
    }
    let mut e = json!({});
    let res: &[T] = match r.below(5) {
        0 => {
            e = json!({"out": hex(&so), "err": hex(&se), "code": 0});
            &[]
        }
        1 => {
            let k = r.u32() as i32;
            c.push(I::I32Const(k));
            so.extend(format!("Result: Num(I32({}))\n", k).bytes());
            e = json!({"out": hex(&so), "err": hex(&se), "code": 0});
            &[T::I32]
        }
        2 => {
            c.push(I::Unreachable);
            e = json!({"out": hex(&so), "errpre": hex(&se), "message": true});
            &[]
        }
        k => {
            let code = *r.pick(&[0, 1, 2, 3, 42, 77, 100, 125, 256, 512, 298, 65536, i32::MIN]);
            c.extend([I::I32Const(code), I::Call(io.exit)]);
            e = if (0..126).contains(&code) {
                json!({"out": hex(&so), "err": hex(&se), "code": code})
            } else {
                // no status wasmtime passes on: it fails with its own
                json!({"out": hex(&so), "errpre": hex(&se), "code": 1})
            };
            if k == 3 {
                // nothing after the exit happens
                let x = io.say(1, &[b"AFTER"]);
                c.extend(x);
                c.push(I::I32Const(5));
                &[T::I32]
            } else {
                &[]
            }
        }
    };
    // through a few calls
    let depth = r.below(4);
    let mut f = io.mb.func(if depth == 0 { Some("_start") } else { None }, &[], res, &[], c);
    for k in 0..depth {
        f = io.mb.func(if k + 1 == depth { Some("_start") } else { None }, &[], res, &[], vec![I::Call(f)]);
    }
    Some((io.mb.finish(), json!({"args": [], "expect": e})))
}
/// standard input copied to standard output
fn stdin_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut io = Io::new();
    let n = r.below(5000) * (1 + r.below(20));
    let input: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
    let size = 1 + r.below(5000) as i32;
    let (rd, wr) = (io.read, io.write);
    // iov at 0: buffer 4096.., count at 16
    let c = vec![
        I::Block(BlockType::Empty),
        I::Loop(BlockType::Empty),
        I::I32Const(0), I::I32Const(4096), I::I32Store(ma(0, 2)),
        I::I32Const(4), I::I32Const(size), I::I32Store(ma(0, 2)),
        I::I32Const(0), I::I32Const(0), I::I32Const(1), I::I32Const(16), I::Call(rd), I::BrIf(1),
        I::I32Const(16), I::I32Load(ma(0, 2)), I::I32Eqz, I::BrIf(1),
        I::I32Const(4), I::I32Const(16), I::I32Load(ma(0, 2)), I::I32Store(ma(0, 2)),
        I::I32Const(1), I::I32Const(0), I::I32Const(1), I::I32Const(20), I::Call(wr), I::BrIf(1),
        I::LocalGet(0), I::I32Const(20), I::I32Load(ma(0, 2)), I::I32Add, I::LocalSet(0),
        I::Br(0),
        I::End,
        I::End,
        I::LocalGet(0),
    ];
    io.mb.func(Some("cat"), &[], &[T::I32], &[T::I32], c);
    let mut out = input.clone();
    out.extend(format!("Result: Num(I32({}))\n", n).bytes());
    Some((io.mb.finish(), json!({"args": ["-i", "cat"], "stdin": hex(&input), "expect": {"out": hex(&out), "err": "", "code": 0}})))
}
fn names(r: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    let stem: String = (0..1 + r.below(6)).map(|_| *r.pick(&['a', 'b', '_', 'Z', '0', '.', ' ', '\u{e9}', '\u{65e5}', '-', '"', ','])).collect();
    for k in 0..3 + r.below(5) {
        let n = match k {
            0 => "_start".to_string(),
            1 => stem.clone(),
            2 => format!("{}x", stem),
            3 => format!("x{}", stem),
            4 => stem.to_uppercase(),
            5 => "_Start".into(),
            6 => stem.chars().rev().collect(),
            _ => format!("{} ", stem),
        };
        if !n.is_empty() && !v.contains(&n) {
            v.push(n);
        }
    }
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i + 1));
    }
    v
}
/// which export runs, and what before it
fn which_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut io = Io::new();
    let ns = names(r);
    for n in &ns {
        let t = format!("<{}>", n);
        let c = io.say(1, &[t.as_bytes()]);
        io.mb.func(Some(n), &[], &[], &[], c);
    }
    io.mb.extra_exports.push(("memory".into(), 2, 0));
    let start = r.chance(1, 3);
    let mut out = vec![];
    if start {
        let c = io.say(1, &[b"S"]);
        let f = io.mb.func(None, &[], &[], &[], c);
        io.mb.start = Some(f);
        out.extend(b"S");
    }
    let w = io.mb.finish();
    if r.chance(1, 3) {
        // a name that is not there
        let n = match r.below(4) {
            0 => "memory".to_string(),
            1 => format!("{}q", r.pick(&ns)),
            2 => r.pick(&ns).chars().skip(1).collect(),
            _ => "main".into(),
        };
        if ns.contains(&n) {
            return None;
        }
        return Some((w, json!({"args": [format!("--invoke={}", n)], "expect": {"out": hex(&out), "message": true}})));
    }
    let n = r.pick(&ns).clone();
    out.extend(format!("<{}>", n).bytes());
    let args = if n == "_start" && r.chance(1, 2) { vec![] } else { vec![format!("--invoke={}", n)] };
    Some((w, json!({"args": args, "expect": {"out": hex(&out), "err": "", "code": 0}})))
}
/// parameters that do not fit
fn misfit_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut io = Io::new();
    let ps: Vec<T> = (0..r.below(5)).map(|_| NUMS[r.below(4)]).collect();
    let mut c = io.say(1, &[b"RAN"]);
    c.push(I::I32Const(1));
    io.mb.func(Some("f"), &ps, &[T::I32], &[], c);
    let w = io.mb.finish();
    let mut given: Vec<String> = vec![];
    let mut ts = ps.clone();
    let k = r.below(4);
    match k {
        0 => ts.push(NUMS[r.below(4)]),
        1 if !ts.is_empty() => {
            let i = r.below(ts.len());
            ts.remove(i);
        }
        2 if !ts.is_empty() => {
            let i = r.below(ts.len());
            let o = ts[i];
            while ts[i] == o {
                ts[i] = NUMS[r.below(4)];
            }
        }
        _ => {}
    }
    for t in &ts {
        let b = arg_bits(r, *t);
        given.push(text(r, *t, plain(*t, b)));
    }
    if ts == ps {
        let bad = *r.pick(&["I32()", "I32(2147483648)", "I32(-2147483649)", "I64(9223372036854775808)", "I32(1.5)", "I64(abc)", "F32(x)", "F64()", "I32(1", "I32 1)", "I32(0x10)", "I32(1 )"]);
        if given.is_empty() {
            return None;
        }
        let i = r.below(given.len());
        given[i] = bad.into();
    }
    let mut v = vec!["-i".to_string(), "f".into()];
    if !given.is_empty() {
        v.extend(["--params".to_string(), given.join(",")]);
    }
    Some((w, json!({"args": v, "expect": {"out": "", "message": true}})))
}
/// files that are no modules
fn file_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut io = Io::new();
    let c = io.say(1, &[b"RAN"]);
    io.mb.func(Some("_start"), &[], &[], &[], c);
    let w = io.mb.finish();
    let mut v = vec![];
    let mut file = Value::Null;
    let b = match r.below(6) {
        0 => {
            file = json!("missing.wasm");
            w
        }
        1 => vec![],
        2 => w[..r.below(w.len())].to_vec(),
        3 => (0..r.below(300)).map(|_| r.u32() as u8).collect(),
        4 => {
            // a restore from something that is no image
            v = vec!["--restore".to_string(), r.pick(&["nothing.bin", "case.wasm", "."]).to_string()];
            w
        }
        _ => {
            file = json!(".");
            w
        }
    };
    // "Restoring from ..." may be said before
    let e = if v.is_empty() { json!({"out": "", "message": true}) } else { json!({"noresult": true, "message": true, "without": hex(b"RAN")}) };
    Some((b, json!({"args": v, "file": file, "expect": e})))
}
/// arguments and environment
fn args_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    let f: Vec<u32> = ["args_sizes_get", "args_get", "environ_sizes_get", "environ_get"].iter().map(|n| mb.import(WASI, n, &[T::I32; 2], &[T::I32])).collect();
    let write = mb.import(WASI, "fd_write", &[T::I32; 4], &[T::I32]);
    mb.mem = Some((4, None));
    let word = |r: &mut Rng| -> String {
        let n = match r.below(8) {
            0 => r.below(500),
            _ => 1 + r.below(12),
        };
        (0..n.max(1)).map(|_| *r.pick(&['a', 'b', 'z', '-', '=', '0', '\\', '\'', '\u{e9}', '\u{65e5}', '\u{1f600}', '$', '\t', ',', '*'])).collect()
    };
    let n = match r.below(5) {
        0 => 0,
        1 => r.below(80),
        _ => r.below(8),
    };
    let mut words: Vec<String> = vec![];
    let mut line = String::new();
    for i in 0..n {
        let sp = " ".repeat(if i == 0 { r.below(2) } else { 1 + r.below(3) });
        line += &sp;
        match r.below(4) {
            0 => {
                // quoted as a whole, with spaces
                let x = format!("{} {}  {}", word(r), word(r), word(r));
                line += &format!("\"{}\"", x);
                words.push(x);
            }
            1 => {
                // partly quoted
                let (a, b, c) = (word(r), word(r), word(r));
                line += &format!("{}\"{} \"{}", a, b, c);
                words.push(format!("{}{} {}", a, b, c));
            }
            _ => {
                let x = word(r);
                line += &x;
                words.push(x);
            }
        }
    }
    line += &" ".repeat(r.below(3));
    let ne = match r.below(5) {
        0 => 0,
        1 => r.below(60),
        _ => r.below(6),
    };
    let env: Vec<String> = (0..ne)
        .map(|i| {
            let v: String = (0..r.below(30)).map(|_| *r.pick(&['a', ' ', '"', '=', '/', '\u{e9}', '\u{65e5}', '0'])).collect();
            format!("K{}{}={}", (i * 7) % 61, ['a', 'B', '_'][r.below(3)], v)
        })
        .collect();
    // placements: sizes words, pointer arrays, buffers; everything else stays 0xa5
    let mut at = 64 + r.below(64) as u32;
    let mut area = |r: &mut Rng, n: u32, al: u32| {
        at = (at + al - 1) & !(al - 1);
        let a = at;
        at += n + 16 + r.below(40) as u32;
        a
    };
    let al = *r.pick(&[1, 2, 4]);
    let (p, q, p2, q2) = (area(r, 4, al), area(r, 4, al), area(r, 4, al), area(r, 4, al));
    let file = r.pick(&["case.wasm", "./case.wasm"]).to_string();
    let asz: u32 = words.iter().map(|w| w.len() as u32 + 1).sum::<u32>() + file.len() as u32 + 1;
    let esz: u32 = env.iter().map(|w| w.len() as u32 + 1).sum();
    let (v, b) = (area(r, 4 * (n as u32 + 1), al), area(r, asz, 1));
    let (v2, b2) = (area(r, 4 * ne as u32, al), area(r, esz, 1));
    let len = at + 64;
    let io = 4 * 65536 - 64;
    let i = |x: u32| I::I32Const(x as i32);
    let mut c = vec![i(0), i(0xa5), i(len), I::MemoryFill(0)];
    let mut seq = vec![(0, p, q), (1, v, b), (2, p2, q2), (3, v2, b2)];
    if r.chance(1, 2) {
        seq.rotate_left(2);
    }
    if r.chance(1, 3) {
        let x = seq.clone();
        seq.extend(x);
    }
    for (k, x, y) in seq {
        // a failing call ends with its error code
        c.extend([i(x), i(y), I::Call(f[k]), I::LocalTee(0), I::If(BlockType::Empty), I::LocalGet(0), I::I32Const(k as i32 * 1000), I::I32Add, I::Return, I::End]);
    }
    c.extend([i(io), i(0), I::I32Store(ma(0, 2)), i(io + 4), i(len), I::I32Store(ma(0, 2)), i(1), i(io), i(1), i(io + 8), I::Call(write)]);
    mb.func(Some("f"), &[], &[T::I32], &[T::I32], c);
    let mut a = vec!["-i".to_string(), "f".into()];
    if n > 0 || r.chance(1, 2) {
        a.push(format!("--app-args={}", line));
    }
    let mut want = vec![file.clone()];
    want.extend(words);
    Some((
        mb.finish(),
        json!({"args": a, "file": file, "env": env, "deliver": {"argv": want, "env": env, "len": len,
            "args": [p, q, v, b], "environ": [p2, q2, v2, b2]}}),
    ))
}
/// a run that is checkpointed again and again and resumed by either build
fn resume_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let p = Prof { fuel: 400, iters: 60, s_ctrl: 20, s_call: 15, tw: [5, 4, 1, 1], refs: r.chance(1, 2), s_grow: 2, trap: 0, unreach: 0, e_host: 0, s_host: 0, ..base() };
    let g = program(r, &p);
    let m = RModule::decode(&g.wasm).ok()?;
    let h = HostModel::new(1);
    let e = expect_m(&m, &g.calls, &h, 2_000_000, true);
    if e.inst.is_err() {
        return None;
    }
    let n = e.outs.iter().take_while(|o| matches!(o, Out::Ok(_))).count();
    if n == 0 {
        return None;
    }
    let w = with_main(&g.wasm, &g.calls[..n], true);
    let o = expect1(&w, "main", &[], 10_000_000)?;
    let s = match &o {
        Out::Ok(v) => show(&v[0])?,
        _ => return None,
    };
    Some((w, json!({"args": ["--invoke", "main"], "resume": {"result": format!("Result: {}\n", s), "hops": 1 + r.below(6), "first": r.below(2), "damage": r.chance(1, 8)}})))
}
/// modules beyond 2^16 of something, in the 32-bit program
fn large_case(r: &mut Rng, resume: bool) -> Option<(Vec<u8>, Value)> {
    let mut cx = crate::chk::Cx::bare(r.u64());
    cx.idx = r.u64();
    let (w, c) = crate::big::few(&mut cx, 4);
    let m = RModule::decode(&w).ok()?;
    let h = HostModel::new(1);
    crate::big::deep(|| {
        let e = expect_m(&m, &c, &h, 5_000_000, true);
        if e.inst.is_err() {
            return None;
        }
        let n = e.outs.iter().take_while(|o| matches!(o, Out::Ok(_))).count();
        if n == 0 {
            return None;
        }
        let w = with_main(&w, &c[..n], m.mem.map_or(false, |m| m.0 < 40));
        let o = expect1(&w, "main", &[], 20_000_000)?;
        if !resume {
            return Some((w, json!({"args": ["--invoke", "main"], "expect": outcome(&o)?, "cr": r.chance(1, 4)})));
        }
        let s = match &o {
            Out::Ok(v) => show(&v[0])?,
            _ => return None,
        };
        Some((w, json!({"args": ["--invoke", "main"], "resume": {"result": format!("Result: {}\n", s), "hops": 1 + r.below(3), "first": r.below(2), "damage": r.chance(1, 8)}})))
    })
}
/// many repetitions of single instructions in all operand forms
fn repeat_case(r: &mut Rng, times: u32) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    let cx = sweep::prelude(&mut mb, (1, Some(3)), 1);
    sweep::extras(&mut mb);
    let mut other = sweep::table_ops();
    other.extend(sweep::select_ops());
    other.extend(sweep::bulk_ops(vec![0, 16, 100], vec![0, 1, 9], 2, vec![0, 3]));
    other.extend(sweep::size_ops(vec![0]));
    let sets = [sweep::int_ops(), sweep::float_ops(), sweep::conv_ops(), sweep::mem_ops(&[0, 8], &|_, n| vec![0, 16, 200 - n as u64]), other];
    let ops = &sets[r.below(5)];
    let mut calls: Vec<Call> = vec![];
    let base = mb.funcs.len();
    for j in 0..40 {
        let o = &ops[r.below(ops.len())];
        let (forms, sink) = { let k = r.u64() % sweep::combos(o); sweep::unrank(r, o, k) };
        let name = format!("g{}", j);
        sweep::function(&mut mb, &cx, r, o, &forms, sink, &name, true);
        calls.push(Call { name, args: o.params.iter().map(|p| (p.0, if p.0.num() { sweep::val_for(r, p) } else { 0 })).collect() });
    }
    // only calls that do not trap
    let w = mb.finish();
    let m = RModule::decode(&w).ok()?;
    let h = HostModel::new(1);
    let e = expect_m(&m, &calls, &h, 1_000_000, false);
    if e.inst.is_err() {
        return None;
    }
    let good: Vec<Call> = calls.iter().zip(&e.outs).filter(|x| matches!(x.1, Out::Ok(_))).map(|x| x.0.clone()).collect();
    for f in &mut mb.funcs[base..] {
        let ctr = (f.params.len() + f.locals.len()) as u32;
        f.locals.push(T::I32);
        let bt = match f.results.len() {
            0 => BlockType::Empty,
            1 => BlockType::Result(f.results[0].vt()),
            _ => {
                // multi-value blocks need a type; the function's own results serve
                let k = (vec![], f.results.clone());
                if !mb.types.contains(&k) {
                    mb.types.push(k.clone());
                }
                BlockType::FunctionType(mb.types.iter().position(|t| *t == k).unwrap() as u32)
            }
        };
        let mut depth = 0u32;
        let mut body = vec![];
        for i in std::mem::take(&mut f.code) {
            match &i {
                I::Block(_) | I::Loop(_) | I::If(_) => depth += 1,
                I::End => depth -= 1,
                _ => {}
            }
            body.push(if matches!(i, I::Return) { I::Br(depth) } else { i });
        }
        let mut c = vec![I::I32Const(times as i32), I::LocalSet(ctr), I::Loop(BlockType::Empty), I::Block(bt)];
        c.extend(body);
        c.push(I::End);
        c.extend(f.results.iter().map(|_| I::Drop));
        c.extend([I::LocalGet(ctr), I::I32Const(1), I::I32Sub, I::LocalTee(ctr), I::BrIf(0), I::End]);
        for t in &f.results {
            c.push(match t {
                T::I32 => I::I32Const(1),
                T::I64 => I::I64Const(2),
                T::F32 => I::F32Const(3.0),
                T::F64 => I::F64Const(4.0),
                x => sweep::nullref(*x),
            });
        }
        f.code = c;
    }
    // a few rounds first: operands may change from one to the next
    for f in &mut mb.funcs[base..] {
        f.code[0] = I::I32Const(40);
    }
    let w = mb.finish();
    let m = RModule::decode(&w).ok()?;
    let e = expect_m(&m, &good, &h, 10_000_000, false);
    let good: Vec<Call> = good.iter().zip(&e.outs).filter(|x| matches!(x.1, Out::Ok(_))).map(|x| x.0.clone()).collect();
    for f in &mut mb.funcs[base..] {
        f.code[0] = I::I32Const(times as i32);
    }
    let w = mb.finish();
    let n = good.len();
    let w = with_main(&w, &good, false);
    Some((w, json!({"args": ["--invoke", "main"], "long": {"functions": n, "times": times}})))
}
/// loops around calls, branches, host calls, tables, memory and blocks
fn loops_case(r: &mut Rng, times: u32) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    let clock = mb.import(WASI, "clock_time_get", &[T::I32, T::I64, T::I32], &[T::I32]);
    let random = mb.import(WASI, "random_get", &[T::I32, T::I32], &[T::I32]);
    let yields = mb.import(WASI, "sched_yield", &[], &[T::I32]);
    mb.mem = Some((2, Some(4)));
    let g = mb.global(T::I64, true, 0);
    let id = mb.func(None, &[T::I64], &[T::I64], &[], vec![I::LocalGet(0), I::I64Const(1), I::I64Add]);
    let early = mb.func(None, &[T::I64], &[T::I64], &[], vec![I::Block(BlockType::Empty), I::LocalGet(0), I::Return, I::End, I::Unreachable]);
    let two = mb.func(None, &[T::I64, T::F64], &[T::F64, T::I64], &[T::I32, T::F32], vec![I::LocalGet(1), I::LocalGet(0), I::Call(id)]);
    mb.tables.push((T::Fn, 8, Some(8)));
    mb.elems.push(El::Active { table: None, off: 0, funcs: vec![id, early, id, early] });
    let ty = mb.ty(&[T::I64], &[T::I64]);
    let bt2 = mb.ty(&[T::I64], &[T::I64]);
    let n = 1 + r.below(6);
    // locals: 0 counter, 1 value, 2 f64
    let mut body: Vec<I<'static>> = vec![];
    for _ in 0..n {
        match r.below(14) {
            0 => body.extend([I::LocalGet(1), I::Call(id), I::LocalSet(1)]),
            1 => body.extend([I::LocalGet(1), I::LocalGet(0), I::I32Const(3), I::I32And, I::CallIndirect { type_index: ty, table_index: 0 }, I::LocalSet(1)]),
            2 => body.extend([I::LocalGet(1), I::Call(early), I::LocalSet(1)]),
            3 => body.extend([I::LocalGet(1), I::LocalGet(2), I::Call(two), I::LocalSet(1), I::LocalSet(2)]),
            4 => body.extend([I::I32Const(1), I::I64Const(0), I::I32Const(64), I::Call(clock), I::Drop]),
            5 => body.extend([I::I32Const(64), I::I32Const(8), I::Call(random), I::Drop]),
            6 => body.extend([I::Call(yields), I::Drop]),
            7 => body.extend([I::GlobalGet(g), I::LocalGet(1), I::I64Xor, I::GlobalSet(g)]),
            8 => body.extend([I::I32Const(0), I::MemoryGrow(0), I::Drop, I::I32Const(100), I::LocalGet(1), I::I64Store(ma(0, 3)), I::I32Const(100), I::I32Const(200), I::I32Const(16), I::MemoryCopy { src_mem: 0, dst_mem: 0 }]),
            9 => {
                // br_table over nested blocks
                body.extend([I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::LocalGet(0), I::I32Const(3), I::I32And]);
                body.extend([I::BrTable(vec![0u32, 1, 2].into(), 1), I::End, I::LocalGet(1), I::I64Const(3), I::I64Add, I::LocalSet(1), I::End]);
                body.extend([I::LocalGet(1), I::I64Const(5), I::I64Mul, I::LocalSet(1), I::End]);
            }
            10 => {
                body.extend([I::LocalGet(1), I::LocalGet(0), I::I32Const(1), I::I32And, I::If(BlockType::FunctionType(bt2)), I::I64Const(7), I::I64Add, I::Else, I::I64Const(9), I::I64Xor, I::End, I::LocalSet(1)]);
            }
            11 => body.extend([I::I32Const(5), I::LocalGet(0), I::I32Const(3), I::I32And, I::TableGet(0), I::TableSet(0), I::I32Const(5), I::TableGet(0), I::RefIsNull, I::Drop]),
            12 => {
                // an inner loop
                body.extend([I::I32Const(3), I::LocalSet(3), I::Loop(BlockType::Empty), I::LocalGet(1), I::I64Const(1), I::I64Add, I::LocalSet(1), I::LocalGet(3), I::I32Const(1), I::I32Sub, I::LocalTee(3), I::BrIf(0), I::End]);
            }
            _ => body.extend([I::Block(BlockType::Result(T::I64.vt())), I::LocalGet(1), I::LocalGet(1), I::I64Eqz, I::BrIf(0), I::I64Const(1), I::I64Sub, I::Br(0), I::End, I::LocalSet(1)]),
        }
    }
    let mut c = vec![I::I32Const(times as i32), I::LocalSet(0), I::Loop(BlockType::Empty)];
    c.extend(body);
    c.extend([I::LocalGet(0), I::I32Const(1), I::I32Sub, I::LocalTee(0), I::BrIf(0), I::End, I::LocalGet(1), I::GlobalGet(g), I::I64Xor]);
    mb.func(Some("main"), &[], &[T::I64], &[T::I32, T::I64, T::F64, T::I32], c);
    let w = mb.finish();
    Some((w, json!({"args": ["--invoke", "main"], "long": {"functions": 1, "times": times}})))
}
/// random programs that run for hundreds of thousands of instructions or more
fn longprog_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let b = base();
    let p = Prof {
        tw: [5, 4, 0, 0], e_conv: 0, e_host: 0, s_host: 0, fuel: *r.pick(&[300, 1000, 3000, 10_000]), iters: *r.pick(&[100, 300, 1000, 5000]), s_ctrl: 22, s_br: 12, stmts: (3, 9), trap: 0,
        unreach: 0, ..b
    };
    let g = program(r, &p);
    let m = RModule::decode(&g.wasm).ok()?;
    let h = HostModel::new(1);
    let e = expect_m(&m, &g.calls[..g.calls.len().min(3)], &h, 12_000_000, false);
    if e.inst.is_err() {
        return None;
    }
    let n = e.outs.iter().take_while(|o| matches!(o, Out::Ok(_))).count();
    if n == 0 {
        return None;
    }
    let w = with_main(&g.wasm, &g.calls[..n], true);
    let (o, used) = expect2(&w, "main", &[], 50_000_000)?;
    if used < 800_000 {
        return None;
    }
    Some((w, json!({"args": ["--invoke", "main"], "expect": outcome(&o)?, "long": {"functions": 1, "times": used}})))
}
/// recursion of several shapes, with its closed form
fn recursion_case(r: &mut Rng, max: u64) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    mb.mem = Some((1, None));
    let d = match r.below(4) {
        0 => r.u64() % 100,
        1 => r.u64() % 5000,
        _ => r.u64() % max,
    };
    let n = d as i64;
    let me = mb.next();
    let (code, res, extra): (Vec<I<'static>>, i64, Vec<T>) = match r.below(4) {
        // sum of 1..n, work after the call
        0 => (
            vec![I::LocalGet(0), I::I64Eqz, I::If(BlockType::Result(T::I64.vt())), I::I64Const(0), I::Else, I::LocalGet(0), I::LocalGet(0), I::I64Const(1), I::I64Sub, I::Call(me), I::I64Add, I::End],
            n.wrapping_mul(n.wrapping_add(1)) / 2,
            vec![],
        ),
        // counts in memory on the way back
        1 => (
            vec![
                I::LocalGet(0), I::I64Eqz, I::If(BlockType::Empty), I::I64Const(0), I::Return, I::End, I::LocalGet(0), I::I64Const(1), I::I64Sub, I::Call(me), I::Drop,
                I::I32Const(8), I::I32Const(8), I::I64Load(ma(0, 3)), I::I64Const(1), I::I64Add, I::I64Store(ma(0, 3)), I::I32Const(8), I::I64Load(ma(0, 3)),
            ],
            n,
            vec![],
        ),
        // many locals, all still there afterwards
        2 => {
            let k = 30u32;
            let mut c = vec![];
            for j in 0..k {
                c.extend([I::LocalGet(0), I::I64Const(j as i64), I::I64Add, I::LocalSet(1 + j)]);
            }
            c.extend([I::LocalGet(0), I::I64Eqz, I::If(BlockType::Result(T::I64.vt())), I::I64Const(0), I::Else, I::LocalGet(0), I::I64Const(1), I::I64Sub, I::Call(me), I::End]);
            for j in 0..k {
                c.extend([I::LocalGet(1 + j), I::LocalGet(0), I::I64Sub, I::I64Add]);
            }
            (c, (n + 1) * (0..30).sum::<i64>(), vec![T::I64; 30])
        }
        // through the table
        _ => {
            mb.tables.push((T::Fn, 1, None));
            mb.elems.push(El::Active { table: None, off: 0, funcs: vec![me] });
            let ty = mb.ty(&[T::I64], &[T::I64]);
            (
                vec![
                    I::LocalGet(0), I::I64Eqz, I::If(BlockType::Result(T::I64.vt())), I::I64Const(5), I::Else, I::LocalGet(0), I::I64Const(1), I::I64Sub, I::I32Const(0),
                    I::CallIndirect { type_index: ty, table_index: 0 }, I::I64Const(3), I::I64Add, I::End,
                ],
                5 + 3 * n,
                vec![],
            )
        }
    };
    mb.func(Some("f"), &[T::I64], &[T::I64], &extra, code);
    let e = json!({"out": hex(format!("Result: Num(I64({}))\n", res).as_bytes()), "code": 0});
    Some((mb.finish(), json!({"args": ["-i", "f", "-p", format!("I64({})", n)], "expect": e, "depth": n})))
}
/// recursion without end: an error, never a result
fn endless_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    let me = mb.next();
    let k = r.below(40);
    let c = vec![I::LocalGet(0), I::I64Const(1), I::I64Add, I::Call(me), I::I64Const(1), I::I64Add];
    mb.func(Some("f"), &[T::I64], &[T::I64], &vec![T::I64; k], c);
    Some((mb.finish(), json!({"args": ["-i", "f", "-p", "I64(0)"], "expect": {"noresult": true, "message": true}, "maxmem": 200_000_000})))
}
/// Growth in a process whose host has little memory: each grow either happens completely or fails
/// without any effect, and the guest goes on either way.
fn growth_case(r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    use wasm_encoder::BlockType as B;
    let min = *r.pick(&[0u32, 1, 2, 40, 700]);
    let max = match r.below(4) {
        0 | 1 => None,
        2 => Some(65536),
        _ => Some(min + r.below(5000) as u32),
    };
    let mut mb = MB::new();
    mb.mem = Some((min, max));
    let callee = r.chance(1, 2);
    let g = mb.next();
    mb.func(None, &[T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::MemoryGrow(0)]);
    // locals: 0 code, 1 old, 2 r, 3 sum over the ends of pages seen so far, 4 position
    let (code, old, res, pos) = (0u32, 1, 2, 3);
    let mut c: Vec<I<'static>> = vec![];
    let fail = |c: &mut Vec<I<'static>>, k: i64| {
        // i32 on the stack: not 0 means wrong
        c.extend([I::If(B::Empty), I::LocalGet(code), I::I64Eqz, I::If(B::Empty), I::I64Const(k), I::LocalSet(code), I::End, I::End]);
    };
    let n = r.range(3, 9);
    for i in 0..n {
        let d: u32 = match r.below(8) {
            0 => r.below(3) as u32,
            1 => r.below(300) as u32,
            2 => 1000 + r.below(3000) as u32,
            3 => 4000 + r.below(30_000) as u32,
            4 => 65536 - r.below(2000) as u32,
            5 => 65536 + r.below(3) as u32,
            6 => 0x7fff_ffff + r.below(3) as u32,
            _ => u32::MAX - r.below(70_000) as u32,
        };
        let k = (i as i64 + 1) * 10;
        c.extend([I::MemorySize(0), I::LocalSet(old), I::I32Const(d as i32)]);
        c.push(if callee { I::Call(g) } else { I::MemoryGrow(0) });
        c.push(I::LocalSet(res));
        c.extend([I::LocalGet(res), I::I32Const(-1), I::I32Eq, I::If(B::Empty)]);
        c.extend([I::MemorySize(0), I::LocalGet(old), I::I32Ne]);
        fail(&mut c, k);
        c.push(I::Else);
        if d > 65536 || max.map_or(false, |m| d as u64 + min as u64 > m as u64) {
            c.push(I::I32Const(1));
            fail(&mut c, k + 1);
        }
        c.extend([I::LocalGet(res), I::LocalGet(old), I::I32Ne]);
        fail(&mut c, k + 2);
        c.extend([I::MemorySize(0), I::LocalGet(old), I::I32Const(d as i32), I::I32Add, I::I32Ne]);
        fail(&mut c, k + 3);
        c.extend([I::MemorySize(0), I::I32Const(max.unwrap_or(65536) as i32), I::I32GtU]);
        fail(&mut c, k + 4);
        if d != 0 && d < 65536 {
            // the new pages are zero, and are then marked at their ends
            c.extend([I::LocalGet(old), I::I32Const(65536), I::I32Mul, I::LocalSet(pos), I::Loop(B::Empty)]);
            c.extend([I::LocalGet(pos), I::I64Load(ma(0, 0)), I::LocalGet(pos), I::I64Load(ma(65528, 0)), I::I64Or, I::I64Eqz, I::I32Eqz]);
            fail(&mut c, k + 5);
            c.extend([I::LocalGet(pos), I::LocalGet(pos), I::I64ExtendI32U, I::I64Const(1), I::I64Add, I::I64Store(ma(65528, 0))]);
            c.extend([I::LocalGet(pos), I::I32Const(65536), I::I32Add, I::LocalTee(pos), I::I32Const(65536), I::I32DivU, I::MemorySize(0), I::I32LtU, I::BrIf(0), I::End]);
        }
        c.push(I::End);
        // every mark is still there
        c.extend([I::LocalGet(old), I::I32Const(min as i32), I::I32GtU, I::If(B::Empty), I::I32Const(min as i32 * 65536), I::LocalSet(pos), I::Loop(B::Empty)]);
        c.extend([I::LocalGet(pos), I::I64Load(ma(65528, 0)), I::LocalGet(pos), I::I64ExtendI32U, I::I64Const(1), I::I64Add, I::I64Ne]);
        fail(&mut c, k + 6);
        c.extend([I::LocalGet(pos), I::I32Const(65536), I::I32Add, I::LocalTee(pos), I::I32Const(65536), I::I32DivU, I::LocalGet(old), I::I32LtU, I::BrIf(0), I::End, I::End]);
    }
    c.push(I::LocalGet(code));
    mb.func(Some("f"), &[], &[T::I64], &[T::I64, T::I32, T::I32, T::I32], c);
    let e = json!({"out": hex(b"Result: Num(I64(0))\n"), "code": 0});
    Some((mb.finish(), json!({"args": ["-i", "f"], "expect": e, "maxmem": (60 + r.below(240)) * 1_000_000})))
}
/// A guest whose state keeps flowing into numbered lines of output, and which may itself ask for a
/// checkpoint: every line, the end, and how much work lies between are known.
fn journey_case(r: &mut Rng, refs: bool) -> Option<(Vec<u8>, Value)> {
    let mut mb = MB::new();
    let write = mb.import(WASI, "fd_write", &[T::I32; 4], &[T::I32]);
    let open = mb.import(WASI, "path_open", &[T::I32, T::I32, T::I32, T::I32, T::I32, T::I64, T::I64, T::I32, T::I32], &[T::I32]);
    let exit = mb.import(WASI, "proc_exit", &[T::I32], &[]);
    let yields = mb.import(WASI, "sched_yield", &[], &[T::I32]);
    mb.mem = Some((2, Some(8)));
    let mut iov = 1024u32.to_le_bytes().to_vec();
    iov.extend(13u32.to_le_bytes());
    mb.datas.push(Da::Active(1000, iov));
    mb.datas.push(Da::Active(900, b"checkpoint.trigger".to_vec()));
    mb.datas.push(Da::Active(1024, b"#@@@@@@@@@@@\n".to_vec()));
    let seg = mb.datas.len() as u32;
    mb.datas.push(Da::Passive((0..64).map(|_| r.u32() as u8).collect()));
    mb.datas.push(Da::Passive((0..300).map(|_| r.u32() as u8).collect()));
    let g = mb.global(T::I64, true, r.u64());
    let gf = mb.global(T::F64, true, 1.5f64.to_bits());
    let gi = mb.global(T::I32, true, 0);
    // say(v): six bits a character
    let say = if r.chance(1, 2) {
        let mut c = vec![];
        for k in 0..11 {
            c.extend([I::I32Const(1025 + k), I::LocalGet(0), I::I64Const(63), I::I64And, I::I64Const(64), I::I64Or, I::I64Store8(ma(0, 0)), I::LocalGet(0), I::I64Const(6), I::I64ShrU, I::LocalSet(0)]);
        }
        c.extend([I::I32Const(1), I::I32Const(1000), I::I32Const(1), I::I32Const(1016), I::Call(write), I::Drop]);
        mb.func(None, &[T::I64], &[], &[], c)
    } else {
        let c = vec![
            I::Loop(BlockType::Empty), I::LocalGet(1), I::LocalGet(0), I::I32WrapI64, I::I32Const(63), I::I32And, I::I32Const(64), I::I32Or, I::I32Store8(ma(1025, 0)),
            I::LocalGet(0), I::I64Const(6), I::I64ShrU, I::LocalSet(0), I::LocalGet(1), I::I32Const(1), I::I32Add, I::LocalTee(1), I::I32Const(11), I::I32LtU, I::BrIf(0), I::End,
            I::I32Const(1), I::I32Const(1000), I::I32Const(1), I::I32Const(1016), I::Call(write), I::Drop,
        ];
        mb.func(None, &[T::I64], &[], &[T::I32], c)
    };
    let touch = |c: &mut Vec<I<'static>>, mark: i64| {
        c.extend([I::I64Const(mark), I::Call(say)]);
        c.extend([I::I32Const(3), I::I32Const(0), I::I32Const(900), I::I32Const(18), I::I32Const(1), I::I64Const(66), I::I64Const(66), I::I32Const(0), I::I32Const(1016), I::Call(open), I::Drop]);
        c.extend([I::I64Const(mark + 1), I::Call(say)]);
    };
    let id = mb.func(None, &[T::I64], &[T::I64], &[], vec![I::LocalGet(0), I::I64Const(r.u64() as i64 | 1), I::I64Mul, I::I64Const(7), I::I64Rotl]);
    let early = mb.func(None, &[T::I64], &[T::I64], &[], vec![I::Block(BlockType::Empty), I::LocalGet(0), I::I64Const(-1), I::I64Xor, I::Return, I::End, I::Unreachable]);
    let two = mb.func(None, &[T::I64, T::F64], &[T::F64, T::I64], &[T::I32, T::F32], vec![I::LocalGet(1), I::F64Const(0.75), I::F64Mul, I::F64Const(1.0), I::F64Add, I::LocalGet(0), I::Call(id)]);
    // rec(depth, v): says something at the bottom, work left on the way back
    let rec = mb.next();
    let mut bottom = vec![I::LocalGet(1), I::Call(say), I::LocalGet(1)];
    if r.chance(1, 2) {
        bottom = vec![I::LocalGet(1), I::LocalGet(1), I::Call(say)];
    }
    let mut c = vec![I::LocalGet(0), I::I32Eqz, I::If(BlockType::Result(T::I64.vt()))];
    c.extend(bottom);
    c.extend([I::Else, I::LocalGet(0), I::I64ExtendI32U, I::LocalGet(1), I::LocalGet(0), I::I32Const(1), I::I32Sub, I::LocalGet(1), I::Call(id), I::Call(rec), I::I64Add, I::I64Xor, I::End]);
    mb.func(None, &[T::I32, T::I64], &[T::I64], &[T::F64, T::I32], c);
    let say2 = mb.func(None, &[T::I64], &[T::I64], &[], vec![I::LocalGet(0), I::Call(say), I::LocalGet(0), I::I64Const(5), I::I64Add]);
    let nt = if refs { 1 + r.below(7) as u32 } else { 1 + r.below(2) as u32 };
    for t in 0..nt {
        mb.tables.push((T::Fn, 8, if t % 2 == 0 { Some(8) } else { None }));
        let fs = [id, early, say2];
        mb.elems.push(El::Active { table: Some(t), off: 0, funcs: (0..6).map(|_| *r.pick(&fs)).collect() });
    }
    let ty = mb.ty(&[T::I64], &[T::I64]);
    // locals: 0 counter, 1 value, 2 f64, 3 inner counter, 4 and 5 scratch
    let piece = |r: &mut Rng, body: &mut Vec<I<'static>>| {
        let t = r.below(nt as usize) as u32;
        match if refs && r.chance(1, 2) { 8 + r.below(4) } else { r.below(18) } {
            0 => body.extend([I::LocalGet(1), I::Call(id), I::LocalSet(1)]),
            1 => body.extend([I::LocalGet(1), I::LocalGet(0), I::I32Const(3), I::I32And, I::CallIndirect { type_index: ty, table_index: t }, I::LocalSet(1)]),
            2 => body.extend([I::LocalGet(1), I::Call(early), I::LocalSet(1)]),
            3 => body.extend([I::LocalGet(1), I::LocalGet(2), I::Call(two), I::LocalSet(1), I::LocalSet(2)]),
            4 => body.extend([I::Call(yields), I::Drop]),
            5 => body.extend([I::GlobalGet(g), I::LocalGet(1), I::I64Xor, I::I64Const(3), I::I64Rotl, I::GlobalSet(g)]),
            6 => body.extend([I::LocalGet(0), I::I32Const(63), I::I32And, I::I32Eqz, I::If(BlockType::Empty), I::I32Const(1), I::MemoryGrow(0), I::I64ExtendI32S, I::LocalGet(1), I::I64Add, I::LocalSet(1), I::End]),
            7 => {
                // the last word of the memory, however large
                body.extend([I::MemorySize(0), I::I32Const(16), I::I32Shl, I::I32Const(8), I::I32Sub, I::LocalTee(4), I::LocalGet(4), I::I64Load(ma(0, 3)), I::LocalGet(1), I::I64Add, I::LocalTee(1), I::I64Store(ma(0, 3))]);
            }
            8 => {
                // references move about
                body.extend([I::LocalGet(0), I::I32Const(7), I::I32And, I::LocalGet(0), I::I32Const(3), I::I32And, I::TableGet(t), I::TableSet(t)]);
                body.extend([I::LocalGet(0), I::I32Const(7), I::I32And, I::TableGet(t), I::RefIsNull, I::I64ExtendI32U, I::LocalGet(1), I::I64Xor, I::LocalSet(1)]);
            }
            9 => {
                let k = r.below(8) as i32;
                body.extend([I::I32Const(k), I::TableGet(t), I::RefIsNull, I::If(BlockType::Empty), I::I32Const(k), I::I32Const(0), I::TableGet(t), I::TableSet(t), I::End, I::LocalGet(1), I::I32Const(k), I::CallIndirect { type_index: ty, table_index: t }, I::LocalSet(1)]);
            }
            10 => {
                let k = 4 + r.below(3) as i32;
                body.extend([I::LocalGet(0), I::I32Const(15), I::I32And, I::I32Const(r.below(16) as i32), I::I32Eq, I::If(BlockType::Empty), I::I32Const(k), I::RefNull(wasm_encoder::HeapType::FUNC), I::TableSet(t), I::End]);
                body.extend([I::I32Const(k), I::TableGet(t), I::RefIsNull, I::I64ExtendI32U, I::LocalGet(1), I::I64Add, I::LocalSet(1)]);
            }
            11 => {
                // a segment used until it is dropped
                let s = seg + r.below(2) as u32;
                body.extend([I::GlobalGet(gi), I::I32Eqz, I::If(BlockType::Empty), I::I32Const(2048), I::LocalGet(0), I::I32Const(31), I::I32And, I::I32Const(16), I::MemoryInit { mem: 0, data_index: s }, I::Else, I::DataDrop(s), I::I32Const(2048), I::I32Const(0), I::I32Const(0), I::MemoryInit { mem: 0, data_index: s }, I::End]);
                body.extend([I::I32Const(2048), I::I64Load(ma(0, 3)), I::LocalGet(1), I::I64Xor, I::LocalSet(1)]);
            }
            12 => {
                body.extend([I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::LocalGet(0), I::I32Const(3), I::I32And]);
                body.extend([I::BrTable(vec![0u32, 1, 2].into(), 1), I::End, I::LocalGet(1), I::I64Const(3), I::I64Add, I::LocalSet(1), I::End]);
                body.extend([I::LocalGet(1), I::I64Const(5), I::I64Mul, I::LocalSet(1), I::End]);
            }
            13 => body.extend([I::LocalGet(1), I::LocalGet(0), I::I32Const(1), I::I32And, I::If(BlockType::FunctionType(ty)), I::I64Const(7), I::I64Add, I::Else, I::I64Const(9), I::I64Xor, I::End, I::LocalSet(1)]),
            14 => {
                let k = *r.pick(&[3, 20, 200]);
                body.extend([I::I32Const(k), I::LocalSet(3), I::Loop(BlockType::Empty), I::LocalGet(1), I::LocalGet(3), I::I64ExtendI32U, I::I64Add, I::LocalSet(1), I::LocalGet(3), I::I32Const(1), I::I32Sub, I::LocalTee(3), I::BrIf(0), I::End]);
            }
            15 => body.extend([I::LocalGet(2), I::GlobalGet(gf), I::F64Add, I::LocalTee(2), I::F64Const(0.5), I::F64Mul, I::F64Floor, I::GlobalSet(gf), I::GlobalGet(gf), I::I64ReinterpretF64, I::LocalGet(1), I::I64Xor, I::LocalSet(1)]),
            16 => body.extend([I::LocalGet(0), I::I32Const(31), I::I32And, I::I32Eqz, I::If(BlockType::Empty), I::LocalGet(1), I::I32Const(*r.pick(&[2, 9, 60])), I::LocalGet(1), I::Call(rec), I::I64Add, I::LocalSet(1), I::End]),
            _ => body.extend([I::LocalGet(1), I::LocalGet(1), I::I32WrapI64, I::I32Const(0x7ff8), I::I32And, I::I64Load(ma(4096, 3)), I::I64Add, I::LocalSet(1), I::LocalGet(1), I::I32WrapI64, I::I32Const(0x7ff8), I::I32And, I::LocalGet(1), I::I64Store(ma(4096, 3))]),
        }
    };
    let times = *r.pick(&[30, 60, 100, 150, 300]);
    let mut body: Vec<I<'static>> = vec![];
    let mut end = r.below(6);
    for _ in 0..2 + r.below(9) {
        piece(r, &mut body);
    }
    let every = *r.pick(&[0, 1, 3, 7]);
    let mut sayit = vec![I::LocalGet(0), I::I32Const(every), I::I32And, I::I32Eqz, I::If(BlockType::Empty)];
    match r.below(3) {
        0 => sayit.extend([I::LocalGet(1), I::Call(say)]),
        // with operands waiting
        1 => sayit.extend([I::GlobalGet(g), I::LocalGet(0), I::I64ExtendI32U, I::LocalGet(1), I::Call(say), I::LocalGet(1), I::I64Add, I::I64Xor, I::GlobalSet(g)]),
        _ => sayit.extend([I::LocalGet(1), I::LocalGet(1), I::I32Const(r.below(6) as i32), I::CallIndirect { type_index: ty, table_index: 0 }, I::I64Sub, I::Call(say2), I::LocalSet(1)]),
    }
    sayit.push(I::End);
    body.extend(sayit);
    for k in 0..r.below(4) {
        let when = r.below(times as usize) as i32;
        body.extend([I::LocalGet(0), I::I32Const(when), I::I32Eq, I::If(BlockType::Empty)]);
        touch(&mut body, 0x10000 + 2 * k as i64);
        body.push(I::End);
    }
    body.extend([I::LocalGet(0), I::I32Const(r.below(times as usize) as i32), I::I32Eq, I::If(BlockType::Empty), I::I32Const(1), I::GlobalSet(gi), I::End]);
    if end == 0 {
        body.extend([I::LocalGet(0), I::I32Const(r.below(times as usize) as i32 / 2), I::I32Eq, I::If(BlockType::Empty), I::I32Const(*r.pick(&[0, 1, 3, 77, 125])), I::Call(exit), I::End]);
    }
    let mut c = vec![I::I32Const(times), I::LocalSet(0), I::Loop(BlockType::Empty)];
    c.extend(body);
    c.extend([I::LocalGet(0), I::I32Const(1), I::I32Sub, I::LocalTee(0), I::BrIf(0), I::End]);
    let mut res = vec![];
    match end {
        1 => c.push(I::Unreachable),
        2 => c.extend([I::LocalGet(1), I::Call(say)]),
        3 => {
            res = vec![T::I32, T::F64, T::I64];
            c.extend([I::LocalGet(3), I::LocalGet(2), I::LocalGet(1)]);
        }
        _ => {
            end = end.max(4);
            res = vec![T::I64];
            c.extend([I::LocalGet(1), I::GlobalGet(g), I::I64Xor]);
        }
    }
    let main = mb.func(None, &[], &res, &[T::I32, T::I64, T::F64, T::I32, T::I32, T::I32], c);
    // perhaps called from further up
    let mut f = main;
    for _ in 0..r.below(3) {
        f = mb.func(None, &[], &res, &[T::I64], vec![I::I64Const(9), I::LocalSet(0), I::Call(f)]);
    }
    mb.func(Some("_start"), &[], &res, &[], vec![I::Call(f)]);
    if r.chance(1, 3) {
        let mut c = vec![];
        for _ in 0..r.below(4) {
            piece(r, &mut c);
        }
        c.extend([I::LocalGet(1), I::Call(say)]);
        if r.chance(1, 3) {
            touch(&mut c, 0x20000);
        }
        c.extend([I::I32Const(0), I::I32Const(1), I::TableGet(0), I::TableSet(0)]);
        let s = mb.func(None, &[], &[], &[T::I32, T::I64, T::F64, T::I32, T::I32, T::I32], c);
        mb.start = Some(s);
    }
    let mut w = mb.finish();
    if let Some(x) = crate::puff::some(&w, 6) {
        w = x.0;
    }
    let m = RModule::decode(&w).ok()?;
    let mut h = HostModel::new(1);
    h.err = 0;
    let (mut marks, before, o, total);
    {
        let (mut ri, x) = RefInst::new(&m, &mut h);
        if x.is_err() {
            return None;
        }
        ri.fuel = 3_000_000;
        ri.max_depth = DEPTH.with(|d| d.get());
        match ri.run_start() {
            None | Some(Out::Ok(_)) => {}
            _ => return None,
        }
        before = ri.host.log.len();
        ri.marks = Some(vec![]);
        ri.solid = 0;
        o = ri.invoke(m.export_func("_start")?, &[]);
        total = ri.solid;
        marks = ri.marks.take()?;
    }
    for _ in 0..before {
        marks.insert(0, 0);
    }
    if matches!(o, Out::Fuel | Out::Ambiguous) {
        return None;
    }
    let (mut lines, mut asks) = (vec![], vec![]);
    for (e, at) in h.log.iter().zip(&marks) {
        match e.name {
            "fd_write" => lines.push(json!([String::from_utf8(e.inputs.concat()[1..12].to_vec()).ok()?, at])),
            "path_open" => asks.push(json!([lines.len() - 1, at])),
            _ => {}
        }
    }
    if lines.len() > 2000 || total > 400_000 {
        return None;
    }
    let end = match &o {
        Out::Ok(v) => match v.last() {
            Some(v) => json!({"result": format!("Result: {}\n", show(v)?)}),
            None => json!({"result": ""}),
        },
        Out::Exit(c) => json!({"exit": c}),
        _ => json!({"trap": true}),
    };
    Some((w, json!({"args": [], "journey": {"lines": lines, "asks": asks, "total": total, "end": end, "seed": r.u64() >> 12}})))
}
/// `vh cligen DIR SEED WHAT=COUNT...`
pub fn generate(dir: &str, seed: u64, what: &[String]) {
    const N: u64 = 8;
    let what: Vec<(String, u64)> = what.iter().map(|w| w.split_once('=').map(|(k, n)| (k.to_string(), n.parse().unwrap())).unwrap()).collect();
    let parts: Vec<Vec<(usize, u64, Vec<u8>, Value)>> = (0..N)
        .map(|t| {
            let what = what.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let mut v = vec![];
                    for (j, (k, n)) in what.iter().enumerate() {
                        let want = n / N + (t < n % N) as u64;
                        let mut got = 0;
                        let mut i = t;
                        while got < want && i < 60 * n + 20 * N {
                            let fh = fnv(k.as_bytes(), 11);
                            let mut r = Rng::new(Rng::new(seed ^ fh ^ (i << 24)).u64());
                            if let Some((w, mut c)) = one(k, &mut r) {
                                c["kind"] = json!(k);
                                v.push((j, i, w, c));
                                got += 1;
                            }
                            i += N;
                        }
                    }
                    v
                })
                .unwrap()
        })
        .collect::<Vec<_>>()
        .into_iter()
        .map(|h| h.join().unwrap())
        .collect();
    let mut all: Vec<_> = parts.into_iter().flatten().collect();
    all.sort_by_key(|x| (x.0, x.1));
    let mut cases = vec![];
    for (id, (_, _, w, mut c)) in all.into_iter().enumerate() {
        std::fs::write(format!("{}/{}.wasm", dir, id), w).unwrap();
        c["id"] = json!(id);
        cases.push(c);
    }
    std::fs::write(format!("{}/cases.json", dir), serde_json::to_string(&cases).unwrap()).unwrap();
}
fn one(k: &str, r: &mut Rng) -> Option<(Vec<u8>, Value)> {
    match k {
        "program" => program_case(r),
        "call" => call_case(r),
        "instr" => instr_case(r),
        "streams" => streams_case(r),
        "stdin" => stdin_case(r),
        "which" => which_case(r),
        "misfit" => misfit_case(r),
        "file" => file_case(r),
        "args" => args_case(r),
        "resume" => resume_case(r),
        "refuse" => {
            // an image of one program is damaged, or offered to the next program
            let mut c = resume_case(r)?;
            c.1["resume"]["damage"] = json!(false);
            c.1["refuse"] = json!(r.u64() >> 12);
            Some(c)
        }
        "journey" => journey_case(r, false),
        "journey-refs" => journey_case(r, true),
        "large" => large_case(r, false),
        "large-resume" => large_case(r, true),
        "repeat" => repeat_case(r, 20_000),
        "loops" => loops_case(r, 200_000),
        "longprog" => longprog_case(r),
        "recursion" => recursion_case(r, 300_000),
        "endless" => endless_case(r),
        "growth" => growth_case(r),
        _ => panic!("{}", k),
    }
}
