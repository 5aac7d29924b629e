//! C25: malformed, invalid and unsupported modules.
use crate::chk::*;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::refi::*;
use crate::rng::Rng;
use wasmparser::{Operator, Parser, Payload, ValType, Validator, WasmFeatures};

/// instructions the runtime implements
const SUPPORTED: &[&str] = &[
    "Block", "Br", "BrIf", "BrTable", "Call", "CallIndirect", "DataDrop", "Drop",
    "Else", "End", "F32Abs", "F32Add", "F32Ceil", "F32Const", "F32ConvertI32S", "F32ConvertI32U",
    "F32ConvertI64S", "F32ConvertI64U", "F32Copysign", "F32DemoteF64", "F32Div", "F32Eq", "F32Floor", "F32Ge",
    "F32Gt", "F32Le", "F32Load", "F32Lt", "F32Max", "F32Min", "F32Mul", "F32Ne",
    "F32Nearest", "F32Neg", "F32ReinterpretI32", "F32Sqrt", "F32Store", "F32Sub", "F32Trunc", "F64Abs",
    "F64Add", "F64Ceil", "F64Const", "F64ConvertI32S", "F64ConvertI32U", "F64ConvertI64S", "F64ConvertI64U", "F64Copysign",
    "F64Div", "F64Eq", "F64Floor", "F64Ge", "F64Gt", "F64Le", "F64Load", "F64Lt",
    "F64Max", "F64Min", "F64Mul", "F64Ne", "F64Nearest", "F64Neg", "F64PromoteF32", "F64ReinterpretI64",
    "F64Sqrt", "F64Store", "F64Sub", "F64Trunc", "GlobalGet", "GlobalSet", "I32Add", "I32And",
    "I32Clz", "I32Const", "I32Ctz", "I32DivS", "I32DivU", "I32Eq", "I32Eqz", "I32Extend16S",
    "I32Extend8S", "I32GeS", "I32GeU", "I32GtS", "I32GtU", "I32LeS", "I32LeU", "I32Load",
    "I32Load16S", "I32Load16U", "I32Load8S", "I32Load8U", "I32LtS", "I32LtU", "I32Mul", "I32Ne",
    "I32Or", "I32Popcnt", "I32ReinterpretF32", "I32RemS", "I32RemU", "I32Rotl", "I32Rotr", "I32Shl",
    "I32ShrS", "I32ShrU", "I32Store", "I32Store16", "I32Store8", "I32Sub", "I32TruncF32S", "I32TruncF32U",
    "I32TruncF64S", "I32TruncF64U", "I32TruncSatF32S", "I32TruncSatF32U", "I32TruncSatF64S", "I32TruncSatF64U", "I32WrapI64", "I32Xor",
    "I64Add", "I64And", "I64Clz", "I64Const", "I64Ctz", "I64DivS", "I64DivU", "I64Eq",
    "I64Eqz", "I64Extend16S", "I64Extend32S", "I64Extend8S", "I64ExtendI32S", "I64ExtendI32U", "I64GeS", "I64GeU",
    "I64GtS", "I64GtU", "I64LeS", "I64LeU", "I64Load", "I64Load16S", "I64Load16U", "I64Load32S",
    "I64Load32U", "I64Load8S", "I64Load8U", "I64LtS", "I64LtU", "I64Mul", "I64Ne", "I64Or",
    "I64Popcnt", "I64ReinterpretF64", "I64RemS", "I64RemU", "I64Rotl", "I64Rotr", "I64Shl", "I64ShrS",
    "I64ShrU", "I64Store", "I64Store16", "I64Store32", "I64Store8", "I64Sub", "I64TruncF32S", "I64TruncF32U",
    "I64TruncF64S", "I64TruncF64U", "I64TruncSatF32S", "I64TruncSatF32U", "I64TruncSatF64S", "I64TruncSatF64U", "I64Xor", "If",
    "LocalGet", "LocalSet", "LocalTee", "Loop", "MemoryCopy", "MemoryFill", "MemoryGrow", "MemoryInit",
    "MemorySize", "Nop", "RefFunc", "RefIsNull", "RefNull", "Return", "Select", "TableFill",
    "TableGet", "TableSet", "TypedSelect", "Unreachable",
];
fn features() -> WasmFeatures {
    WasmFeatures::MUTABLE_GLOBAL
        | WasmFeatures::SATURATING_FLOAT_TO_INT
        | WasmFeatures::SIGN_EXTENSION
        | WasmFeatures::REFERENCE_TYPES
        | WasmFeatures::MULTI_VALUE
        | WasmFeatures::BULK_MEMORY
        | WasmFeatures::FLOATS
}
fn valid(w: &[u8]) -> Result<(), String> {
    Validator::new_with_features(features()).validate_all(w).map(|_| ()).map_err(|e| e.to_string())
}
pub fn op_name(o: &Operator) -> String {
    let s = format!("{:?}", o);
    s.split(|c: char| !c.is_ascii_alphanumeric()).next().unwrap_or("").to_string()
}
/// why a valid module may be refused (None: it must be accepted), and whether it is small enough to run
fn judge(w: &[u8]) -> (Option<String>, bool) {
    let mut why = None;
    let mut small = true;
    let mut grows = false;
    let mut maxmem = 0u64;
    let mut types: Vec<(Vec<ValType>, Vec<ValType>)> = vec![];
    let mut globals: Vec<ValType> = vec![];
    for p in Parser::new(0).parse_all(w) {
        match p {
            Ok(Payload::TypeSection(s)) => {
                for t in s.into_iter_err_on_gc_types().flatten() {
                    types.push((t.params().to_vec(), t.results().to_vec()));
                }
            }
            Ok(Payload::ImportSection(s)) => {
                for i in s.into_iter().flatten() {
                    let ok = match i.ty {
                        wasmparser::TypeRef::Func(t) => {
                            let known = crate::wasi::names().contains(&i.name) || i.name == "proc_exit";
                            i.module == "wasi_snapshot_preview1" && known && {
                                let (p, q) = crate::wasi::sig(i.name);
                                let tt = &types[t as usize];
                                tt.0 == p.iter().map(|x| vt(*x)).collect::<Vec<_>>() && tt.1 == q.iter().map(|x| vt(*x)).collect::<Vec<_>>()
                            }
                        }
                        _ => false,
                    };
                    if !ok {
                        why = Some("import".to_string());
                    }
                }
            }
            Ok(Payload::FunctionSection(s)) => {
                for t in s.into_iter().flatten() {
                    if types[t as usize].1.len() > 8 {
                        why = Some("more than eight results".into());
                    }
                }
            }
            Ok(Payload::TableSection(s)) => {
                for t in s.into_iter().flatten() {
                    small &= t.ty.initial < 50_000;
                }
            }
            Ok(Payload::MemorySection(s)) => {
                for t in s.into_iter().flatten() {
                    small &= t.initial < 300;
                    maxmem = t.maximum.unwrap_or(65536);
                }
            }
            Ok(Payload::GlobalSection(s)) => {
                for t in s.into_iter().flatten() {
                    globals.push(t.ty.content_type);
                }
            }
            Ok(Payload::CodeSectionEntry(b)) => {
                if let Ok(l) = b.get_locals_reader() {
                    if l.into_iter().flatten().map(|x| x.0 as u64).sum::<u64>() > 20_000 {
                        why = Some("a very large number of locals".into());
                        small = false;
                    }
                }
                if let Ok(r) = b.get_operators_reader() {
                    for o in r.into_iter().flatten() {
                        match &o {
                            Operator::MemoryGrow { .. } => grows = true,
                            Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
                                if globals.get(*global_index as usize).is_some_and(|g| g.is_reference_type()) {
                                    why = Some("access to a global of reference type".into());
                                }
                            }
                            _ => {}
                        }
                        let n = op_name(&o);
                        if !SUPPORTED.contains(&n.as_str()) {
                            why = Some(n);
                        }
                    }
                }
            }
            _ => {}
        }
    }
    if grows && maxmem > 600 {
        small = false;
    }
    (why, small)
}
fn vt(t: T) -> ValType {
    match t {
        T::I32 => ValType::I32,
        T::I64 => ValType::I64,
        T::F32 => ValType::F32,
        T::F64 => ValType::F64,
        T::Fn => ValType::FUNCREF,
        T::Ex => ValType::EXTERNREF,
    }
}
fn leb(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n == 0 {
            v.push(b);
            return v;
        }
        v.push(b | 128);
    }
}
fn rd(b: &[u8], p: &mut usize) -> Option<u64> {
    let (mut n, mut s) = (0u64, 0);
    loop {
        let x = *b.get(*p)?;
        *p += 1;
        n |= ((x & 127) as u64) << s;
        s += 7;
        if x < 128 {
            return Some(n);
        }
        if s > 35 {
            return None;
        }
    }
}
/// (id, payload) of every section
fn sections(w: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut v = vec![];
    let mut p = 8;
    while p < w.len() {
        let id = w[p];
        p += 1;
        let n = match rd(w, &mut p) {
            Some(n) => n as usize,
            None => break,
        };
        if p + n > w.len() {
            break;
        }
        v.push((id, w[p..p + n].to_vec()));
        p += n;
    }
    v
}
fn join(s: &[(u8, Vec<u8>)]) -> Vec<u8> {
    let mut w = b"\0asm\x01\0\0\0".to_vec();
    for (id, b) in s {
        w.push(*id);
        w.extend(leb(b.len() as u64));
        w.extend(b);
    }
    w
}
/// instructions of every body as byte ranges
fn bodies(code: &[u8]) -> Option<Vec<(Vec<u8>, Vec<Vec<u8>>)>> {
    let mut p = 0;
    let n = rd(code, &mut p)?;
    let mut out = vec![];
    for _ in 0..n {
        let l = rd(code, &mut p)? as usize;
        let b = code.get(p..p + l)?;
        p += l;
        let f = wasmparser::FunctionBody::new(wasmparser::BinaryReader::new(b, 0, WasmFeatures::all()));
        let r = f.get_operators_reader().ok()?;
        let mut offs: Vec<usize> = r.into_iter_with_offsets().map(|x| x.ok().map(|y| y.1)).collect::<Option<Vec<_>>>()?;
        let head = b[..*offs.first()?].to_vec();
        offs.push(b.len());
        out.push((head, offs.windows(2).map(|w| b[w[0]..w[1]].to_vec()).collect()));
    }
    Some(out)
}
fn unbodies(v: &[(Vec<u8>, Vec<Vec<u8>>)]) -> Vec<u8> {
    let mut o = leb(v.len() as u64);
    for (h, ops) in v {
        let mut b = h.clone();
        for x in ops {
            b.extend(x);
        }
        o.extend(leb(b.len() as u64));
        o.extend(b);
    }
    o
}
/// encodings of instructions outside and inside the feature set
fn foreign(r: &mut Rng) -> Vec<u8> {
    match r.below(16) {
        0 => vec![0xfd, 0x0c, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16],
        1 => {
            let mut v = vec![0xfd];
            v.extend(leb(r.below(276) as u64));
            v.extend([0, 0, 0]);
            v
        }
        2 => vec![0xfe, r.below(80) as u8, 2, 0],
        3 => vec![0xfc, 8 + r.below(12) as u8, 0, 0],
        4 => vec![0xfc, r.below(24) as u8],
        5 => vec![0x12, r.below(6) as u8],
        6 => vec![0x13, 0, 0],
        7 => vec![0xfc, 0x10, 0],
        8 => vec![0xfc, 0x0f, 0],
        9 => vec![0x06 + r.below(5) as u8, 0x40],
        10 => vec![0x14 + r.below(2) as u8, 0],
        11 => vec![0xfb, r.below(31) as u8, 0, 0],
        12 => vec![0xd0 + r.below(10) as u8, r.below(128) as u8],
        13 => vec![0xfc, 0x0e, 0, 0],
        14 => vec![0xfc, 0x0d, 0],
        _ => vec![r.u32() as u8],
    }
}
fn simple(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 => vec![0x41, r.below(64) as u8],
        1 => vec![0x42, r.below(64) as u8],
        2 => vec![0x43, 0, 0, 0x80, 0x3f],
        3 => vec![0x1a],
        4 => vec![0x1b],
        5 => vec![0x20, r.below(12) as u8],
        6 => vec![0x21, r.below(12) as u8],
        7 => vec![0x22, r.below(12) as u8],
        8 => vec![0x0c + r.below(2) as u8, r.below(4) as u8],
        9 => vec![0x0f],
        10 => vec![0x00],
        11 => vec![0x45 + (r.u32() % 0x80) as u8],
        12 => vec![0x10, r.below(8) as u8],
        _ => vec![0x0b],
    }
}
fn mutate_ops(r: &mut Rng, w: &[u8]) -> Option<Vec<u8>> {
    let mut s = sections(w);
    let c = s.iter().position(|x| x.0 == 10)?;
    let mut b = bodies(&s[c].1)?;
    let n = 1 + r.below(3);
    for _ in 0..n {
        let k = r.below(b.len());
        let donor = {
            let d = r.below(b.len());
            let l = b[d].1.len();
            b[d].1[r.below(l)].clone()
        };
        if r.chance(1, 12) {
            // the list of locals
            let l = b[k].0.len();
            let i = r.below(l);
            b[k].0[i] = r.u32() as u8;
            continue;
        }
        let ops = &mut b[k].1;
        let i = r.below(ops.len());
        match r.below(9) {
            0 => {
                ops.remove(i);
                if ops.is_empty() {
                    ops.push(vec![0x0b]);
                }
            }
            1 => {
                let x = ops[i].clone();
                ops.insert(i, x)
            }
            2 => {
                let j = r.below(ops.len());
                ops.swap(i, j)
            }
            3 => ops.insert(i, donor),
            4 => ops[i] = donor,
            5 => {
                let l = ops[i].len();
                let j = r.below(l);
                ops[i][j] = if r.chance(1, 2) { ops[i][j] ^ (1 << r.below(8)) } else { r.u32() as u8 };
            }
            6 => ops.insert(i, foreign(r)),
            7 => ops.insert(i, simple(r)),
            _ => ops[i] = simple(r),
        }
    }
    s[c].1 = unbodies(&b);
    Some(join(&s))
}
fn mutate(r: &mut Rng, w: &[u8]) -> Vec<u8> {
    let mut v = w.to_vec();
    match r.below(12) {
        0 => {
            v.truncate(r.below(w.len()));
            v
        }
        1 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(v.len());
                v[i] ^= 1 << r.below(8);
            }
            v
        }
        2 => {
            for _ in 0..1 + r.below(4) {
                let i = r.below(v.len());
                match r.below(3) {
                    0 => v[i] = r.u32() as u8,
                    1 => v.insert(i, r.u32() as u8),
                    _ => {
                        v.remove(i);
                    }
                }
            }
            v
        }
        3 => {
            let mut s = sections(w);
            let i = r.below(s.len());
            match r.below(6) {
                0 => {
                    s.remove(i);
                }
                1 => {
                    let x = s[i].clone();
                    s.insert(i, x)
                }
                2 => {
                    let j = r.below(s.len());
                    s.swap(i, j)
                }
                3 => s[i].0 = r.below(16) as u8,
                4 => {
                    let n = r.below(30);
                    let b: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect();
                    s.insert(i, (r.below(16) as u8, b))
                }
                _ => {
                    // a custom section, which is always allowed
                    let n = r.below(30);
                    let mut b = vec![4, b'n', b'a', b'm', b'e'];
                    b.extend((0..n).map(|_| r.u32() as u8));
                    s.insert(i, (0, b))
                }
            }
            join(&s)
        }
        4 => {
            // inside one section, its size kept right
            let mut s = sections(w);
            let i = r.below(s.len());
            let b = &mut s[i].1;
            for _ in 0..1 + r.below(2) {
                if b.is_empty() {
                    b.push(0);
                }
                let k = r.below(b.len().min(40));
                match r.below(4) {
                    0 => b[k] ^= 1 << r.below(8),
                    1 => b[k] = r.u32() as u8,
                    2 => b.insert(k, r.u32() as u8),
                    _ => {
                        b.remove(k);
                    }
                }
            }
            join(&s)
        }
        5 => match r.below(6) {
            0 => {
                v[4] = r.u32() as u8;
                v
            }
            1 => {
                v.extend((0..1 + r.below(20)).map(|_| r.u32() as u8).collect::<Vec<_>>());
                v
            }
            2 => (0..r.below(200)).map(|_| r.u32() as u8).collect(),
            3 => b"(module (func (export \"main\")))".to_vec(),
            4 => {
                let mut x = b"\0asm\x01\0\0\0".to_vec();
                x.extend((0..r.below(60)).map(|_| (r.u32() % 16) as u8).collect::<Vec<_>>());
                x
            }
            _ => {
                v[r.below(8)] ^= 1 << r.below(8);
                v
            }
        },
        _ => mutate_ops(r, w).unwrap_or(v),
    }
}
fn offered(cx: &mut Cx, w: &[u8], calls: &[Call], h: &HostModel) -> V {
    let val = valid(w);
    let hh = fnv(w, 5);
    if let Err(e) = &val {
        host::reset(h.clone());
        let got = load(w, &argv_of(h));
        cx.nontrivial(hh);
        if !host::ctx().model.log.is_empty() {
            return V::Bad(format!("loading an invalid module ({}) made host calls", e));
        }
        cx.add("invalid modules", 1);
        return match got {
            Ok(_) => V::Bad(format!("an invalid module is accepted ({})", e)),
            Err(x) if x.starts_with("panic") => V::Bad(format!("loading an invalid module ({}): {}", e, x)),
            Err(_) => V::Ok,
        };
    }
    let (why, small) = judge(w);
    if !small {
        cx.add("modules too large to run", 1);
        return V::Discard;
    }
    host::reset(h.clone());
    let got = load(w, &argv_of(h));
    if !host::ctx().model.log.is_empty() {
        return V::Bad("loading a module made host calls".into());
    }
    match (&why, &got) {
        (None, Err(x)) => {
            let m = RModule::decode(w);
            // segments that do not fit are refused as well
            let fits = m.as_ref().map(|m| expect_m(m, &[], h, 2000, true)).map(|e| e.started || e.inst.is_ok() || e.discard());
            if fits == Ok(true) {
                return V::Bad(format!("a valid module is refused: {}", x));
            }
            cx.add("modules that do not instantiate", 1);
            V::Ok
        }
        (Some(y), Err(x)) => {
            cx.nontrivial(hh);
            if x.starts_with("panic") {
                return V::Bad(format!("a module with an unsupported feature ({}): {}", y, x));
            }
            cx.add("unsupported modules refused", 1);
            V::Ok
        }
        _ => {
            cx.nontrivial(hh);
            cx.add("valid modules accepted", 1);
            let m = match RModule::decode(w) {
                Ok(m) => m,
                // accepted with something the reference cannot express
                Err(e) => return V::Bad(format!("a module outside the supported feature set is accepted ({})", e)),
            };
            // the exports may have changed
            let cs: Vec<Call> = calls
                .iter()
                .filter(|c| m.export_func(&c.name).is_some_and(|f| ft_nums(m.ftype(f)) == c.args.iter().map(|a| a.0).collect::<Vec<_>>() && m.funcs[f as usize].import.is_none()))
                .cloned()
                .collect();
            UNSUP.with(|x| x.set(false));
            let v = compare(cx, w, &cs, h, 30_000, true, &RunOpt::default());
            if UNSUP.with(|x| x.get()) {
                return V::Bad(format!("a module is accepted and executes an instruction outside the supported set ({:?})", why));
            }
            v
        }
    }
}
pub fn mutated(cx: &mut Cx) -> V {
    let (w, calls, hs) = if cx.r.chance(1, 4) {
        let (mut mb, c) = crate::c13::module(&mut cx.r);
        (mb.finish(), c, 7)
    } else {
        let b = base();
        let k = cx.r.below(4);
        let p = Prof {
            funcs: (1, 3),
            stmts: (1, 5),
            depth: 3,
            refs: cx.r.chance(1, 2),
            s_table: 6,
            s_bulk: 5,
            s_grow: 0,
            e_size: 0,
            start: cx.r.chance(1, 4),
            e_ctrl: if k == 0 { 20 } else { b.e_ctrl },
            s_br: if k == 0 { 20 } else { b.s_br },
            tw: [3, 3, 2, 2],
            ..b
        };
        let pr = program(&mut cx.r, &p);
        (pr.wasm, pr.calls, pr.host_seed)
    };
    let m = mutate(&mut cx.r, &w);
    let h = HostModel::new(hs);
    cx.case(&m, cut(&format!("{:?} host seed {}", calls, h.seed), 20000));
    offered(cx, &m, &calls, &h)
}
/// every truncation of a module
pub fn truncated(cx: &mut Cx) -> V {
    let p = Prof { funcs: (1, 2), stmts: (1, 2), depth: 2, ..base() };
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(1);
    for n in 0..pr.wasm.len() {
        let w = pr.wasm[..n].to_vec();
        cx.case(&w, format!("the first {} bytes", n));
        match offered(cx, &w, &[], &h) {
            V::Bad(d) => return V::Bad(format!("the first {} of {} bytes: {}", n, pr.wasm.len(), d)),
            _ => {}
        }
    }
    V::Ok
}
const FEATURES: &[&str] = &[
    "(module (memory 1) (memory 1))",
    "(module (memory i64 1))",
    "(module (memory 1 2 shared))",
    "(module (table i64 1 funcref))",
    "(module (func (param v128)))",
    "(module (func (result v128) (v128.const i32x4 0 0 0 0)))",
    "(module (global v128 (v128.const i32x4 0 0 0 0)))",
    "(module (func $f) (func (export \"m\") (return_call $f)))",
    "(module (type $t (func)) (table 1 funcref) (func (export \"m\") (return_call_indirect (type $t) (i32.const 0))))",
    "(module (tag $e) (func (export \"m\") (throw $e)))",
    "(module (tag $e))",
    "(module (type $s (struct (field i32))) (func (export \"m\") (drop (struct.new $s (i32.const 1)))))",
    "(module (type $a (array i32)))",
    "(module (type $t (func)) (func (param (ref null $t))))",
    "(module (type $t (func)) (func (export \"m\") (call_ref $t (ref.null $t))))",
    "(module (memory 1) (func (export \"m\") (drop (i32.atomic.load (i32.const 0)))))",
    "(module (memory 1) (func (export \"m\") (drop (i32.atomic.rmw.add (i32.const 0) (i32.const 1)))))",
    "(module (table 2 funcref) (func (export \"m\") (table.copy (i32.const 0) (i32.const 0) (i32.const 1))))",
    "(module (table 2 funcref) (elem $e func) (func (export \"m\") (table.init $e (i32.const 0) (i32.const 0) (i32.const 0))))",
    "(module (table 2 funcref) (elem $e func) (func (export \"m\") (elem.drop $e)))",
    "(module (table 2 funcref) (func (export \"m\") (drop (table.size))))",
    "(module (table 2 funcref) (func (export \"m\") (drop (table.grow (ref.null func) (i32.const 1)))))",
    "(module (global i32 (i32.add (i32.const 1) (i32.const 2))))",
    "(module (func (export \"m\") (drop (i64.add128 (i64.const 0) (i64.const 0) (i64.const 0) (i64.const 0)))))",
    "(module (func (result i32 i32 i32 i32 i32 i32 i32 i32 i32) i32.const 1 i32.const 1 i32.const 1 i32.const 1 i32.const 1 i32.const 1 i32.const 1 i32.const 1 i32.const 1))",
    "(module (global $g (mut funcref) (ref.null func)) (func (export \"m\") (global.set $g (ref.null func))))",
    "(module (import \"env\" \"mem\" (memory 1)))",
    "(module (import \"env\" \"t\" (table 1 funcref)))",
    "(module (import \"env\" \"g\" (global i32)))",
    "(module (import \"env\" \"f\" (func)))",
    "(module (import \"wasi_snapshot_preview1\" \"fd_nonsense\" (func)))",
    "(component)",
];
const FINE: &[&str] = &[
    "(module)",
    "(module (func))",
    "(module (memory 0))",
    "(module (memory 0 0))",
    "(module (memory 1 65536))",
    "(module (table 0 funcref))",
    "(module (table 0 0 externref))",
    "(module (func (export \"\")))",
    "(module (type (func)) (type (func)) (type (func (param i32 i64 f32 f64 funcref externref) (result externref funcref f64 f32 i64 i32))))",
    "(module (global i32 (i32.const 1)) (global (mut f64) (f64.const nan)) (global funcref (ref.null func)) (global externref (ref.null extern)))",
    "(module (func (local i32 i64 f32 f64 funcref externref)))",
    "(module (func (unreachable) (i32.add) (drop)))",
    "(module (func (result i32) (block (result i32) (loop (result i32) (br 0)))))",
    "(module (elem func) (elem declare func) (memory 1) (data \"\") (data (i32.const 65536) \"\"))",
    "(module (func $s) (start $s))",
    "(module (func (param i32) (result i32 i32 i32 i32 i32 i32 i32 i32) (local.get 0) (local.get 0) (local.get 0) (local.get 0) (local.get 0) (local.get 0) (local.get 0) (local.get 0)))",
    "(module (memory 1) (func (param i32) (drop (i64.load offset=4294967295 align=1 (local.get 0)))))",
    "(module (@custom \"x\" \"yz\") (func))",
];
pub fn known(cx: &mut Cx) -> V {
    let i = cx.idx as usize;
    let (t, bad) = if i < FEATURES.len() { (FEATURES[i], true) } else { (FINE[(i - FEATURES.len()) % FINE.len()], false) };
    let w = match wat::parse_str(t) {
        Ok(w) => w,
        Err(_) => return V::Discard,
    };
    cx.case(&w, t.to_string());
    let h = HostModel::new(1);
    host::reset(h.clone());
    let hh = fnv(&w, 6);
    cx.nontrivial(hh);
    match (bad, load(&w, &[])) {
        (true, Ok(_)) => V::Bad(format!("accepted although it needs a feature the runtime lacks: {}", t)),
        (true, Err(e)) if e.starts_with("panic") => V::Bad(format!("{}: {}", t, e)),
        (false, Err(e)) => V::Bad(format!("refused: {}: {}", t, e)),
        _ => {
            cx.add(if bad { "unsupported modules refused" } else { "valid modules accepted" }, 1);
            V::Ok
        }
    }
}
pub const KNOWN: u64 = (FEATURES.len() + FINE.len()) as u64;
