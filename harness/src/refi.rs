//! Reference interpreter: a direct stack-machine reading of the WebAssembly specification,
//! independent of chiwawa's translator and dispatcher. It is the oracle of the differential monitors.
use crate::hostmodel::{HostModel, MemView};
use std::collections::{HashMap, HashSet};
use wasmparser::{BlockType, ExternalKind, Operator, Parser, Payload, TypeRef, ValType};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum RV {
    I32(u32),
    I64(u64),
    /// bits, and whether the NaN payload is unspecified (result of an arithmetic operation)
    F32(u32, bool),
    F64(u64, bool),
    FuncRef(Option<u32>),
    ExternRef(Option<u32>),
}
impl RV {
    pub fn i32(self) -> u32 {
        match self {
            RV::I32(x) => x,
            _ => panic!("ref: type"),
        }
    }
    pub fn i64(self) -> u64 {
        match self {
            RV::I64(x) => x,
            _ => panic!("ref: type"),
        }
    }
    pub fn f32(self) -> f32 {
        match self {
            RV::F32(x, _) => f32::from_bits(x),
            _ => panic!("ref: type"),
        }
    }
    pub fn f64(self) -> f64 {
        match self {
            RV::F64(x, _) => f64::from_bits(x),
            _ => panic!("ref: type"),
        }
    }
    pub fn zero(t: ValType) -> RV {
        match t {
            ValType::I32 => RV::I32(0),
            ValType::I64 => RV::I64(0),
            ValType::F32 => RV::F32(0, false),
            ValType::F64 => RV::F64(0, false),
            ValType::Ref(r) if r.is_extern_ref() => RV::ExternRef(None),
            ValType::Ref(_) => RV::FuncRef(None),
            ValType::V128 => panic!("ref: v128"),
        }
    }
    pub fn as_u64(self) -> u64 {
        match self {
            RV::I32(x) => x as u64,
            RV::I64(x) => x,
            RV::F32(x, _) => x as u64,
            RV::F64(x, _) => x,
            RV::FuncRef(x) | RV::ExternRef(x) => x.map(|v| v as u64).unwrap_or(u64::MAX),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Trap {
    Unreachable,
    DivZero,
    DivOverflow,
    TruncInvalid,
    TruncOverflow,
    MemOob,
    TableOob,
    NullFunc,
    SigMismatch,
    HostFault,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<RV>),
    Trap(Trap),
    /// the reference gave up (fuel, depth): the case is discarded
    Fuel,
    /// the program observed NaN bits the specification leaves open: the case is discarded
    Ambiguous,
    Exit(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub struct FT {
    pub params: Vec<ValType>,
    pub results: Vec<ValType>,
}
thread_local! {
    /// set when an instruction outside the supported set was reached
    pub static UNSUP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub struct RFunc<'a> {
    pub ty: usize,
    pub import: Option<(String, String)>,
    pub locals: Vec<ValType>,
    pub code: Vec<Operator<'a>>,
    /// for block/loop/if: index of matching end; for `if` also else (0 = none)
    pub end: Vec<u32>,
    pub els: Vec<u32>,
}
#[derive(Clone)]
pub enum CExpr {
    Const(RV),
    Global(u32),
    Func(u32),
}
pub struct RElem {
    pub active: Option<(u32, CExpr)>,
    pub declared: bool,
    pub funcs: Vec<CExpr>,
}
pub struct RData {
    pub active: Option<CExpr>,
    pub bytes: Vec<u8>,
}
pub struct RModule<'a> {
    pub types: Vec<FT>,
    pub funcs: Vec<RFunc<'a>>,
    pub tables: Vec<(u32, Option<u32>, bool)>,
    pub mem: Option<(u32, Option<u32>)>,
    pub globals: Vec<(ValType, bool, CExpr)>,
    pub exports: Vec<(String, ExternalKind, u32)>,
    pub elems: Vec<RElem>,
    pub datas: Vec<RData>,
    pub start: Option<u32>,
}

fn cexpr(e: &wasmparser::ConstExpr) -> Option<CExpr> {
    let mut r = e.get_operators_reader();
    let op = r.read().ok()?;
    let v = match op {
        Operator::I32Const { value } => CExpr::Const(RV::I32(value as u32)),
        Operator::I64Const { value } => CExpr::Const(RV::I64(value as u64)),
        Operator::F32Const { value } => CExpr::Const(RV::F32(value.bits(), false)),
        Operator::F64Const { value } => CExpr::Const(RV::F64(value.bits(), false)),
        Operator::GlobalGet { global_index } => CExpr::Global(global_index),
        Operator::RefNull { hty } => CExpr::Const(if hty == wasmparser::HeapType::Extern {
            RV::ExternRef(None)
        } else {
            RV::FuncRef(None)
        }),
        Operator::RefFunc { function_index } => CExpr::Func(function_index),
        _ => return None,
    };
    Some(v)
}

impl<'a> RModule<'a> {
    pub fn decode(bytes: &'a [u8]) -> Result<RModule<'a>, String> {
        let mut m = RModule {
            types: vec![],
            funcs: vec![],
            tables: vec![],
            mem: None,
            globals: vec![],
            exports: vec![],
            elems: vec![],
            datas: vec![],
            start: None,
        };
        let mut next_body = 0usize;
        let es = |e: wasmparser::BinaryReaderError| e.to_string();
        for p in Parser::new(0).parse_all(bytes) {
            match p.map_err(es)? {
                Payload::TypeSection(s) => {
                    for t in s.into_iter_err_on_gc_types() {
                        let t = t.map_err(es)?;
                        m.types.push(FT {
                            params: t.params().to_vec(),
                            results: t.results().to_vec(),
                        });
                    }
                }
                Payload::ImportSection(s) => {
                    for i in s {
                        let i = i.map_err(es)?;
                        match i.ty {
                            TypeRef::Func(t) => m.funcs.push(RFunc {
                                ty: t as usize,
                                import: Some((i.module.into(), i.name.into())),
                                locals: vec![],
                                code: vec![],
                                end: vec![],
                                els: vec![],
                            }),
                            _ => return Err("ref: import kind".into()),
                        }
                    }
                    next_body = m.funcs.len();
                }
                Payload::FunctionSection(s) => {
                    next_body = m.funcs.len();
                    for t in s {
                        m.funcs.push(RFunc {
                            ty: t.map_err(es)? as usize,
                            import: None,
                            locals: vec![],
                            code: vec![],
                            end: vec![],
                            els: vec![],
                        });
                    }
                }
                Payload::TableSection(s) => {
                    for t in s {
                        let t = t.map_err(es)?;
                        m.tables
                            .push((t.ty.initial as u32, t.ty.maximum.map(|x| x as u32), t.ty.element_type.is_extern_ref()));
                    }
                }
                Payload::MemorySection(s) => {
                    for t in s {
                        let t = t.map_err(es)?;
                        m.mem = Some((t.initial as u32, t.maximum.map(|x| x as u32)));
                    }
                }
                Payload::GlobalSection(s) => {
                    for g in s {
                        let g = g.map_err(es)?;
                        m.globals.push((
                            g.ty.content_type,
                            g.ty.mutable,
                            cexpr(&g.init_expr).ok_or("ref: init expr")?,
                        ));
                    }
                }
                Payload::ExportSection(s) => {
                    for e in s {
                        let e = e.map_err(es)?;
                        m.exports.push((e.name.into(), e.kind, e.index));
                    }
                }
                Payload::StartSection { func, .. } => m.start = Some(func),
                Payload::ElementSection(s) => {
                    for e in s {
                        let e = e.map_err(es)?;
                        let (active, declared) = match e.kind {
                            wasmparser::ElementKind::Passive => (None, false),
                            wasmparser::ElementKind::Declared => (None, true),
                            wasmparser::ElementKind::Active {
                                table_index,
                                offset_expr,
                            } => (
                                Some((
                                    table_index.unwrap_or(0),
                                    cexpr(&offset_expr).ok_or("ref: offset")?,
                                )),
                                false,
                            ),
                        };
                        let mut funcs = vec![];
                        match e.items {
                            wasmparser::ElementItems::Functions(r) => {
                                for f in r {
                                    funcs.push(CExpr::Func(f.map_err(es)?));
                                }
                            }
                            wasmparser::ElementItems::Expressions(_, r) => {
                                for x in r {
                                    funcs.push(cexpr(&x.map_err(es)?).ok_or("ref: elem expr")?);
                                }
                            }
                        }
                        m.elems.push(RElem {
                            active,
                            declared,
                            funcs,
                        });
                    }
                }
                Payload::DataSection(s) => {
                    for d in s {
                        let d = d.map_err(es)?;
                        let active = match d.kind {
                            wasmparser::DataKind::Passive => None,
                            wasmparser::DataKind::Active { offset_expr, .. } => {
                                Some(cexpr(&offset_expr).ok_or("ref: offset")?)
                            }
                        };
                        m.datas.push(RData {
                            active,
                            bytes: d.data.to_vec(),
                        });
                    }
                }
                Payload::CodeSectionEntry(b) => {
                    let f = &mut m.funcs[next_body];
                    next_body += 1;
                    for l in b.get_locals_reader().map_err(es)? {
                        let (n, t) = l.map_err(es)?;
                        for _ in 0..n {
                            f.locals.push(t);
                        }
                    }
                    let mut ctl: Vec<usize> = vec![];
                    for op in b.get_operators_reader().map_err(es)? {
                        let op = op.map_err(es)?;
                        let pc = f.code.len();
                        f.end.push(0);
                        f.els.push(0);
                        match &op {
                            Operator::Block { .. } | Operator::Loop { .. } | Operator::If { .. } => {
                                ctl.push(pc)
                            }
                            Operator::Else => {
                                let s = *ctl.last().ok_or("ref: else")?;
                                f.els[s] = pc as u32;
                            }
                            Operator::End => {
                                if let Some(s) = ctl.pop() {
                                    f.end[s] = pc as u32;
                                    let e = f.els[s] as usize;
                                    if e != 0 {
                                        f.end[e] = pc as u32;
                                    }
                                }
                            }
                            _ => {}
                        }
                        f.code.push(op);
                    }
                }
                _ => {}
            }
        }
        Ok(m)
    }
    pub fn ftype(&self, f: u32) -> &FT {
        &self.types[self.funcs[f as usize].ty]
    }
    pub fn export_func(&self, name: &str) -> Option<u32> {
        self.exports
            .iter()
            .find(|(n, k, _)| n == name && *k == ExternalKind::Func)
            .map(|e| e.2)
    }
}

struct Lab {
    /// pc to continue at when branched to
    target: usize,
    height: usize,
    arity: usize,
    is_loop: bool,
}

pub struct RInstView {
    pub mem: Option<Vec<u8>>,
    pub nd: HashSet<u32>,
    pub globals: Vec<RV>,
    pub tables: Vec<Vec<RV>>,
}
pub struct RefInst<'a, 'h> {
    pub m: &'a RModule<'a>,
    pub mem: Vec<u8>,
    pub nd: HashSet<u32>,
    pub globals: Vec<RV>,
    pub tables: Vec<Vec<RV>>,
    pub dropped: Vec<bool>,
    pub fuel: u64,
    pub used: u64,
    pub depth: usize,
    pub max_depth: usize,
    pub seen_depth: usize,
    pub host: &'h mut HostModel,
    pub ops_seen: Option<HashMap<std::mem::Discriminant<Operator<'a>>, (String, u64)>>,
    pub branches: u64,
    pub calls: u64,
    pub page_cap: u32,
    pub abort: Option<Out>,
    /// global whose writes are time-stamped
    pub tick: Option<u32>,
    pub tick_used: Vec<u64>,
    pub host_used: Vec<u64>,
    /// at each host call: how many operators came before it that an interpreter cannot fold away
    pub marks: Option<Vec<u64>>,
    pub solid: u64,
    /// executed operators with locals, globals and the function's operand stack before them
    pub tr: Option<Vec<(String, Vec<RV>, Vec<RV>, Vec<RV>)>>,
    /// imported functions of other instances
    pub links: Vec<Option<(*mut RefInst<'a, 'h>, u32)>>,
}

enum Ex {
    Trap(Trap),
    Stop(Out),
}
type R<T> = Result<T, Ex>;
impl From<Trap> for Ex {
    fn from(t: Trap) -> Ex {
        Ex::Trap(t)
    }
}

pub struct RefMem<'x> {
    pub mem: &'x mut Vec<u8>,
    pub nd: &'x mut HashSet<u32>,
}
impl<'x> MemView for RefMem<'x> {
    fn len(&self) -> u64 {
        self.mem.len() as u64
    }
    fn read(&self, a: u64, n: u64) -> Vec<u8> {
        self.mem[a as usize..(a + n) as usize].to_vec()
    }
    fn write(&mut self, a: u64, b: &[u8]) {
        let a = a as usize;
        self.mem[a..a + b.len()].copy_from_slice(b);
        if !self.nd.is_empty() {
            for i in 0..b.len() {
                self.nd.remove(&((a + i) as u32));
            }
        }
    }
}

impl<'a, 'h> RefInst<'a, 'h> {
    pub fn eval_c(&self, c: &CExpr) -> RV {
        match c {
            CExpr::Const(v) => *v,
            CExpr::Global(i) => self.globals[*i as usize],
            CExpr::Func(f) => RV::FuncRef(Some(*f)),
        }
    }
    /// Instantiate per the specification (segments in order; a segment that does not fit fails).
    pub fn new(m: &'a RModule<'a>, host: &'h mut HostModel) -> (RefInst<'a, 'h>, Result<(), String>) {
        let mut r = RefInst {
            m,
            mem: vec![0; m.mem.map(|x| x.0 as usize * 65536).unwrap_or(0)],
            nd: HashSet::new(),
            globals: vec![],
            tables: m
                .tables
                .iter()
                .map(|t| {
                    vec![
                        if t.2 {
                            RV::ExternRef(None)
                        } else {
                            RV::FuncRef(None)
                        };
                        t.0 as usize
                    ]
                })
                .collect(),
            dropped: vec![false; m.datas.len()],
            fuel: 200_000,
            used: 0,
            depth: 0,
            max_depth: 400,
            seen_depth: 0,
            host,
            ops_seen: None,
            branches: 0,
            calls: 0,
            page_cap: 65536,
            abort: None,
            tick: None,
            tick_used: vec![],
            host_used: vec![],
            marks: None,
            solid: 0,
            tr: None,
            links: vec![],
        };
        for g in &m.globals {
            let v = r.eval_c(&g.2);
            r.globals.push(v);
        }
        for e in &m.elems {
            if let Some((t, off)) = &e.active {
                let o = r.eval_c(off).i32() as usize;
                let t = *t as usize;
                if o + e.funcs.len() > r.tables[t].len() {
                    return (r, Err("elem out of bounds".into()));
                }
                for (i, f) in e.funcs.iter().enumerate() {
                    let v = r.eval_c(f);
                    r.tables[t][o + i] = v;
                }
            }
        }
        for (i, d) in m.datas.iter().enumerate() {
            if let Some(off) = &d.active {
                let o = r.eval_c(off).i32() as usize;
                if o + d.bytes.len() > r.mem.len() {
                    return (r, Err("data out of bounds".into()));
                }
                r.mem[o..o + d.bytes.len()].copy_from_slice(&d.bytes);
                r.dropped[i] = true;
            }
        }
        (r, Ok(()))
    }
    /// the module's start function, to be run once after a successful instantiation
    pub fn run_start(&mut self) -> Option<Out> {
        self.m.start.map(|f| self.invoke(f, &[]))
    }
    pub fn view(&self) -> RInstView {
        RInstView {
            mem: self.m.mem.map(|_| self.mem.clone()),
            nd: self.nd.clone(),
            globals: self.globals.clone(),
            tables: self.tables.clone(),
        }
    }
    pub fn ops_list(&self) -> Vec<(String, u64)> {
        self.ops_seen.as_ref().map(|h| h.values().cloned().collect()).unwrap_or_default()
    }
    pub fn invoke(&mut self, f: u32, args: &[RV]) -> Out {
        self.depth = 0;
        match self.call(f, args.to_vec()) {
            Ok(v) => Out::Ok(v),
            Err(Ex::Trap(t)) => Out::Trap(t),
            Err(Ex::Stop(o)) => o,
        }
    }
    fn btype(&self, b: &BlockType) -> (usize, usize) {
        match b {
            BlockType::Empty => (0, 0),
            BlockType::Type(_) => (0, 1),
            BlockType::FuncType(i) => {
                let t = &self.m.types[*i as usize];
                (t.params.len(), t.results.len())
            }
        }
    }
    fn ea(&self, base: u32, off: u64, n: usize) -> R<usize> {
        let a = base as u64 + off;
        if a + n as u64 > self.mem.len() as u64 {
            return Err(Trap::MemOob.into());
        }
        Ok(a as usize)
    }
    fn ld<const N: usize>(&mut self, base: RV, off: u64) -> R<[u8; N]> {
        let a = self.ea(base.i32(), off, N)?;
        if !self.nd.is_empty() && (0..N).any(|i| self.nd.contains(&((a + i) as u32))) {
            return Err(Ex::Stop(Out::Ambiguous));
        }
        let mut b = [0u8; N];
        b.copy_from_slice(&self.mem[a..a + N]);
        Ok(b)
    }
    fn ldf<const N: usize>(&mut self, base: RV, off: u64) -> R<([u8; N], bool)> {
        let a = self.ea(base.i32(), off, N)?;
        let mut b = [0u8; N];
        b.copy_from_slice(&self.mem[a..a + N]);
        let mut nd = false;
        if !self.nd.is_empty() {
            let c = (0..N).filter(|i| self.nd.contains(&((a + i) as u32))).count();
            if c == N {
                let isnan = if N == 4 {
                    f32::from_le_bytes(b[..4].try_into().unwrap()).is_nan()
                } else {
                    f64::from_le_bytes(b[..8].try_into().unwrap()).is_nan()
                };
                if !isnan {
                    return Err(Ex::Stop(Out::Ambiguous));
                }
                nd = true;
            } else if c != 0 {
                return Err(Ex::Stop(Out::Ambiguous));
            }
        }
        Ok((b, nd))
    }
    fn st(&mut self, base: RV, off: u64, b: &[u8], nd: bool) -> R<()> {
        let a = self.ea(base.i32(), off, b.len())?;
        self.mem[a..a + b.len()].copy_from_slice(b);
        if nd {
            for i in 0..b.len() {
                self.nd.insert((a + i) as u32);
            }
        } else if !self.nd.is_empty() {
            for i in 0..b.len() {
                self.nd.remove(&((a + i) as u32));
            }
        }
        Ok(())
    }
    fn call(&mut self, f: u32, args: Vec<RV>) -> R<Vec<RV>> {
        let m = self.m;
        let fun = &m.funcs[f as usize];
        self.calls += 1;
        if let Some(Some((p, g))) = self.links.get(f as usize) {
            // the caller keeps every instance alive and unmoved
            let t = unsafe { &mut **p };
            t.depth = self.depth;
            t.used = self.used;
            t.fuel = self.fuel;
            t.max_depth = self.max_depth;
            let r = t.call(*g, args);
            self.used = t.used;
            self.seen_depth = self.seen_depth.max(t.seen_depth);
            return r;
        }
        if let Some((_module, name)) = &fun.import {
            let a: Vec<u64> = args.iter().map(|v| v.as_u64()).collect();
            if self.tick.is_some() {
                self.host_used.push(self.used);
            }
            if let Some(m) = &mut self.marks {
                m.push(self.solid);
            }
            for v in &args {
                match v {
                    RV::F32(_, true) | RV::F64(_, true) => return Err(Ex::Stop(Out::Ambiguous)),
                    _ => {}
                }
            }
            // host calls read guest memory; unspecified NaN bytes would be observable there
            if !self.nd.is_empty() && self.host.reads_memory(name) {
                return Err(Ex::Stop(Out::Ambiguous));
            }
            let mut mv = RefMem {
                mem: &mut self.mem,
                nd: &mut self.nd,
            };
            return match self.host.guest_call(name, &a, &mut mv) {
                crate::hostmodel::HR::Val(v) => Ok(vec![RV::I32(v)]),
                crate::hostmodel::HR::Void => Ok(vec![]),
                crate::hostmodel::HR::Fault => Err(Trap::HostFault.into()),
                crate::hostmodel::HR::Unspec => Err(Ex::Stop(Out::Ambiguous)),
                crate::hostmodel::HR::Exit(c) => Err(Ex::Stop(Out::Exit(c))),
            };
        }
        self.depth += 1;
        self.seen_depth = self.seen_depth.max(self.depth);
        if self.depth > self.max_depth {
            return Err(Ex::Stop(Out::Fuel));
        }
        let mut locals = args;
        for t in &fun.locals {
            locals.push(RV::zero(*t));
        }
        let r = self.exec(fun, locals, m.types[fun.ty].results.len());
        self.depth -= 1;
        r
    }
    fn exec(&mut self, fun: &'a RFunc<'a>, mut locals: Vec<RV>, nres: usize) -> R<Vec<RV>> {
        let m = self.m;
        let mut s: Vec<RV> = Vec::with_capacity(16);
        let mut labs: Vec<Lab> = vec![Lab {
            target: fun.code.len(),
            height: 0,
            arity: nres,
            is_loop: false,
        }];
        let mut pc = 0usize;
        macro_rules! pop {
            () => {
                s.pop().expect("ref: stack underflow")
            };
        }
        macro_rules! bin32 {
            (|$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().i32();
                let $a = pop!().i32();
                s.push(RV::I32($e));
            }};
        }
        macro_rules! bin64 {
            (|$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().i64();
                let $a = pop!().i64();
                s.push(RV::I64($e));
            }};
        }
        macro_rules! cmp64 {
            (|$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().i64();
                let $a = pop!().i64();
                s.push(RV::I32($e as u32));
            }};
        }
        macro_rules! cmp32 {
            (|$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().i32();
                let $a = pop!().i32();
                s.push(RV::I32($e as u32));
            }};
        }
        macro_rules! cmpf {
            ($g:ident, |$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().$g();
                let $a = pop!().$g();
                s.push(RV::I32($e as u32));
            }};
        }
        fn pf32(v: f32) -> RV {
            RV::F32(v.to_bits(), v.is_nan())
        }
        fn pf64(v: f64) -> RV {
            RV::F64(v.to_bits(), v.is_nan())
        }
        macro_rules! binf {
            ($g:ident, $p:ident, |$a:ident,$b:ident| $e:expr) => {{
                let $b = pop!().$g();
                let $a = pop!().$g();
                s.push($p($e));
            }};
        }
        macro_rules! unf {
            ($g:ident, $p:ident, |$a:ident| $e:expr) => {{
                let $a = pop!().$g();
                s.push($p($e));
            }};
        }
        macro_rules! branch {
            ($d:expr) => {{
                let d = $d as usize;
                self.branches += 1;
                let li = labs.len() - 1 - d;
                let (target, height, arity, is_loop) = {
                    let l = &labs[li];
                    (l.target, l.height, l.arity, l.is_loop)
                };
                let from = s.len() - arity;
                s.drain(height..from);
                labs.truncate(if is_loop { li + 1 } else { li });
                pc = target;
                if labs.is_empty() {
                    return Ok(s);
                }
                continue;
            }};
        }
        loop {
            if pc >= fun.code.len() {
                let n = s.len();
                return Ok(s.split_off(n - nres));
            }
            self.used += 1;
            if self.used > self.fuel {
                return Err(Ex::Stop(Out::Fuel));
            }
            let op = &fun.code[pc];
            if let Some(h) = &mut self.ops_seen {
                h.entry(std::mem::discriminant(op))
                    .or_insert_with(|| (format!("{:?}", op).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(), 0))
                    .1 += 1;
            }
            if self.marks.is_some() && solid(op) {
                self.solid += 1;
            }
            if let Some(t) = &mut self.tr {
                let n = format!("{:?}", op).split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_lowercase();
                let n = match op {
                    Operator::Call { function_index } if self.m.funcs[*function_index as usize].import.is_some() => "callhost".to_string(),
                    _ => n,
                };
                t.push((n, locals.clone(), self.globals.clone(), s.clone()));
            }
            match op {
                Operator::Unreachable => return Err(Trap::Unreachable.into()),
                Operator::Nop => {}
                Operator::Block { blockty } => {
                    let (p, r) = self.btype(blockty);
                    labs.push(Lab {
                        target: fun.end[pc] as usize + 1,
                        height: s.len() - p,
                        arity: r,
                        is_loop: false,
                    });
                }
                Operator::Loop { blockty } => {
                    let (p, _) = self.btype(blockty);
                    labs.push(Lab {
                        target: pc + 1,
                        height: s.len() - p,
                        arity: p,
                        is_loop: true,
                    });
                }
                Operator::If { blockty } => {
                    let c = pop!().i32();
                    let (p, r) = self.btype(blockty);
                    let lab = Lab {
                        target: fun.end[pc] as usize + 1,
                        height: s.len() - p,
                        arity: r,
                        is_loop: false,
                    };
                    if c != 0 {
                        labs.push(lab);
                    } else if fun.els[pc] != 0 {
                        labs.push(lab);
                        pc = fun.els[pc] as usize + 1;
                        continue;
                    } else {
                        pc = fun.end[pc] as usize + 1;
                        continue;
                    }
                }
                Operator::Else => {
                    // end of the then-branch
                    labs.pop();
                    pc = fun.end[pc] as usize + 1;
                    continue;
                }
                Operator::End => {
                    labs.pop();
                    if labs.is_empty() {
                        return Ok(s);
                    }
                }
                Operator::Br { relative_depth } => branch!(*relative_depth),
                Operator::BrIf { relative_depth } => {
                    if pop!().i32() != 0 {
                        branch!(*relative_depth)
                    }
                }
                Operator::BrTable { targets } => {
                    let i = pop!().i32();
                    let d = if i < targets.len() {
                        targets.targets().nth(i as usize).unwrap().unwrap()
                    } else {
                        targets.default()
                    };
                    branch!(d)
                }
                Operator::Return => {
                    self.branches += 1;
                    let n = s.len();
                    return Ok(s.split_off(n - nres));
                }
                Operator::Call { function_index } => {
                    let n = m.ftype(*function_index).params.len();
                    let at = s.len() - n;
                    let args = s.split_off(at);
                    let r = self.call(*function_index, args)?;
                    s.extend(r);
                }
                Operator::CallIndirect {
                    type_index,
                    table_index,
                } => {
                    let i = pop!().i32() as usize;
                    let t = &self.tables[*table_index as usize];
                    if i >= t.len() {
                        return Err(Trap::TableOob.into());
                    }
                    let f = match t[i] {
                        RV::FuncRef(Some(f)) => f,
                        _ => return Err(Trap::NullFunc.into()),
                    };
                    if m.ftype(f) != &m.types[*type_index as usize] {
                        return Err(Trap::SigMismatch.into());
                    }
                    let n = m.ftype(f).params.len();
                    let at = s.len() - n;
                    let args = s.split_off(at);
                    let r = self.call(f, args)?;
                    s.extend(r);
                }
                Operator::Drop => {
                    pop!();
                }
                Operator::Select | Operator::TypedSelect { .. } => {
                    let c = pop!().i32();
                    let b = pop!();
                    let a = pop!();
                    s.push(if c != 0 { a } else { b });
                }
                Operator::LocalGet { local_index } => s.push(locals[*local_index as usize]),
                Operator::LocalSet { local_index } => locals[*local_index as usize] = pop!(),
                Operator::LocalTee { local_index } => {
                    locals[*local_index as usize] = *s.last().unwrap()
                }
                Operator::GlobalGet { global_index } => s.push(self.globals[*global_index as usize]),
                Operator::GlobalSet { global_index } => {
                    if self.tick == Some(*global_index) {
                        self.tick_used.push(self.used);
                    }
                    self.globals[*global_index as usize] = pop!()
                }
                Operator::TableGet { table } => {
                    let i = pop!().i32() as usize;
                    let t = &self.tables[*table as usize];
                    if i >= t.len() {
                        return Err(Trap::TableOob.into());
                    }
                    s.push(t[i]);
                }
                Operator::TableSet { table } => {
                    let v = pop!();
                    let i = pop!().i32() as usize;
                    let t = &mut self.tables[*table as usize];
                    if i >= t.len() {
                        return Err(Trap::TableOob.into());
                    }
                    t[i] = v;
                }
                Operator::TableFill { table } => {
                    let n = pop!().i32() as usize;
                    let v = pop!();
                    let i = pop!().i32() as usize;
                    let t = &mut self.tables[*table as usize];
                    if i + n > t.len() {
                        return Err(Trap::TableOob.into());
                    }
                    for x in &mut t[i..i + n] {
                        *x = v;
                    }
                }
                Operator::RefNull { hty } => s.push(if *hty == wasmparser::HeapType::Extern {
                    RV::ExternRef(None)
                } else {
                    RV::FuncRef(None)
                }),
                Operator::RefIsNull => {
                    let v = pop!();
                    s.push(RV::I32(
                        matches!(v, RV::FuncRef(None) | RV::ExternRef(None)) as u32
                    ));
                }
                Operator::RefFunc { function_index } => s.push(RV::FuncRef(Some(*function_index))),

                Operator::I32Load { memarg } => {
                    let b = pop!();
                    let v = self.ld::<4>(b, memarg.offset)?;
                    s.push(RV::I32(u32::from_le_bytes(v)))
                }
                Operator::I64Load { memarg } => {
                    let b = pop!();
                    let v = self.ld::<8>(b, memarg.offset)?;
                    s.push(RV::I64(u64::from_le_bytes(v)))
                }
                Operator::F32Load { memarg } => {
                    let b = pop!();
                    let (v, nd) = self.ldf::<4>(b, memarg.offset)?;
                    s.push(RV::F32(u32::from_le_bytes(v), nd))
                }
                Operator::F64Load { memarg } => {
                    let b = pop!();
                    let (v, nd) = self.ldf::<8>(b, memarg.offset)?;
                    s.push(RV::F64(u64::from_le_bytes(v), nd))
                }
                Operator::I32Load8S { memarg } => {
                    let b = pop!();
                    let v = self.ld::<1>(b, memarg.offset)?;
                    s.push(RV::I32(v[0] as i8 as i32 as u32))
                }
                Operator::I32Load8U { memarg } => {
                    let b = pop!();
                    let v = self.ld::<1>(b, memarg.offset)?;
                    s.push(RV::I32(v[0] as u32))
                }
                Operator::I32Load16S { memarg } => {
                    let b = pop!();
                    let v = self.ld::<2>(b, memarg.offset)?;
                    s.push(RV::I32(i16::from_le_bytes(v) as i32 as u32))
                }
                Operator::I32Load16U { memarg } => {
                    let b = pop!();
                    let v = self.ld::<2>(b, memarg.offset)?;
                    s.push(RV::I32(u16::from_le_bytes(v) as u32))
                }
                Operator::I64Load8S { memarg } => {
                    let b = pop!();
                    let v = self.ld::<1>(b, memarg.offset)?;
                    s.push(RV::I64(v[0] as i8 as i64 as u64))
                }
                Operator::I64Load8U { memarg } => {
                    let b = pop!();
                    let v = self.ld::<1>(b, memarg.offset)?;
                    s.push(RV::I64(v[0] as u64))
                }
                Operator::I64Load16S { memarg } => {
                    let b = pop!();
                    let v = self.ld::<2>(b, memarg.offset)?;
                    s.push(RV::I64(i16::from_le_bytes(v) as i64 as u64))
                }
                Operator::I64Load16U { memarg } => {
                    let b = pop!();
                    let v = self.ld::<2>(b, memarg.offset)?;
                    s.push(RV::I64(u16::from_le_bytes(v) as u64))
                }
                Operator::I64Load32S { memarg } => {
                    let b = pop!();
                    let v = self.ld::<4>(b, memarg.offset)?;
                    s.push(RV::I64(i32::from_le_bytes(v) as i64 as u64))
                }
                Operator::I64Load32U { memarg } => {
                    let b = pop!();
                    let v = self.ld::<4>(b, memarg.offset)?;
                    s.push(RV::I64(u32::from_le_bytes(v) as u64))
                }
                Operator::I32Store { memarg } => {
                    let v = pop!().i32();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes(), false)?
                }
                Operator::I64Store { memarg } => {
                    let v = pop!().i64();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes(), false)?
                }
                Operator::F32Store { memarg } => {
                    let v = pop!();
                    let b = pop!();
                    if let RV::F32(x, nd) = v {
                        self.st(b, memarg.offset, &x.to_le_bytes(), nd)?
                    }
                }
                Operator::F64Store { memarg } => {
                    let v = pop!();
                    let b = pop!();
                    if let RV::F64(x, nd) = v {
                        self.st(b, memarg.offset, &x.to_le_bytes(), nd)?
                    }
                }
                Operator::I32Store8 { memarg } => {
                    let v = pop!().i32();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes()[..1], false)?
                }
                Operator::I32Store16 { memarg } => {
                    let v = pop!().i32();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes()[..2], false)?
                }
                Operator::I64Store8 { memarg } => {
                    let v = pop!().i64();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes()[..1], false)?
                }
                Operator::I64Store16 { memarg } => {
                    let v = pop!().i64();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes()[..2], false)?
                }
                Operator::I64Store32 { memarg } => {
                    let v = pop!().i64();
                    let b = pop!();
                    self.st(b, memarg.offset, &v.to_le_bytes()[..4], false)?
                }
                Operator::MemorySize { .. } => s.push(RV::I32((self.mem.len() / 65536) as u32)),
                Operator::MemoryGrow { .. } => {
                    let d = pop!().i32() as u64;
                    let old = (self.mem.len() / 65536) as u64;
                    let max = m.mem.unwrap().1.unwrap_or(65536).min(65536) as u64;
                    if old + d > max {
                        s.push(RV::I32(u32::MAX));
                    } else if old + d > self.page_cap as u64 {
                        // allowed to succeed or fail: outcome not determined by the specification
                        return Err(Ex::Stop(Out::Ambiguous));
                    } else {
                        self.mem.resize(((old + d) * 65536) as usize, 0);
                        s.push(RV::I32(old as u32));
                    }
                }
                Operator::MemoryCopy { .. } => {
                    let n = pop!().i32() as u64;
                    let src = pop!().i32() as u64;
                    let dst = pop!().i32() as u64;
                    let l = self.mem.len() as u64;
                    if src + n > l || dst + n > l {
                        return Err(Trap::MemOob.into());
                    }
                    self.mem
                        .copy_within(src as usize..(src + n) as usize, dst as usize);
                    if !self.nd.is_empty() {
                        let mv: Vec<(u32, bool)> = (0..n as u32)
                            .map(|i| (i, self.nd.contains(&(src as u32 + i))))
                            .collect();
                        for (i, b) in mv {
                            if b {
                                self.nd.insert(dst as u32 + i);
                            } else {
                                self.nd.remove(&(dst as u32 + i));
                            }
                        }
                    }
                }
                Operator::MemoryFill { .. } => {
                    let n = pop!().i32() as u64;
                    let v = pop!().i32() as u8;
                    let dst = pop!().i32() as u64;
                    if dst + n > self.mem.len() as u64 {
                        return Err(Trap::MemOob.into());
                    }
                    self.mem[dst as usize..(dst + n) as usize].fill(v);
                    if !self.nd.is_empty() {
                        for i in dst..dst + n {
                            self.nd.remove(&(i as u32));
                        }
                    }
                }
                Operator::MemoryInit { data_index, .. } => {
                    let n = pop!().i32() as u64;
                    let src = pop!().i32() as u64;
                    let dst = pop!().i32() as u64;
                    let di = *data_index as usize;
                    let sl = if self.dropped[di] {
                        0
                    } else {
                        m.datas[di].bytes.len() as u64
                    };
                    if src + n > sl || dst + n > self.mem.len() as u64 {
                        return Err(Trap::MemOob.into());
                    }
                    self.mem[dst as usize..(dst + n) as usize]
                        .copy_from_slice(&m.datas[di].bytes[src as usize..(src + n) as usize]);
                    if !self.nd.is_empty() {
                        for i in dst..dst + n {
                            self.nd.remove(&(i as u32));
                        }
                    }
                }
                Operator::DataDrop { data_index } => self.dropped[*data_index as usize] = true,

                Operator::I32Const { value } => s.push(RV::I32(*value as u32)),
                Operator::I64Const { value } => s.push(RV::I64(*value as u64)),
                Operator::F32Const { value } => s.push(RV::F32(value.bits(), false)),
                Operator::F64Const { value } => s.push(RV::F64(value.bits(), false)),

                Operator::I32Eqz => {
                    let a = pop!().i32();
                    s.push(RV::I32((a == 0) as u32))
                }
                Operator::I32Eq => cmp32!(|a, b| a == b),
                Operator::I32Ne => cmp32!(|a, b| a != b),
                Operator::I32LtS => cmp32!(|a, b| (a as i32) < (b as i32)),
                Operator::I32LtU => cmp32!(|a, b| a < b),
                Operator::I32GtS => cmp32!(|a, b| (a as i32) > (b as i32)),
                Operator::I32GtU => cmp32!(|a, b| a > b),
                Operator::I32LeS => cmp32!(|a, b| (a as i32) <= (b as i32)),
                Operator::I32LeU => cmp32!(|a, b| a <= b),
                Operator::I32GeS => cmp32!(|a, b| (a as i32) >= (b as i32)),
                Operator::I32GeU => cmp32!(|a, b| a >= b),
                Operator::I64Eqz => {
                    let a = pop!().i64();
                    s.push(RV::I32((a == 0) as u32))
                }
                Operator::I64Eq => cmp64!(|a, b| a == b),
                Operator::I64Ne => cmp64!(|a, b| a != b),
                Operator::I64LtS => cmp64!(|a, b| (a as i64) < (b as i64)),
                Operator::I64LtU => cmp64!(|a, b| a < b),
                Operator::I64GtS => cmp64!(|a, b| (a as i64) > (b as i64)),
                Operator::I64GtU => cmp64!(|a, b| a > b),
                Operator::I64LeS => cmp64!(|a, b| (a as i64) <= (b as i64)),
                Operator::I64LeU => cmp64!(|a, b| a <= b),
                Operator::I64GeS => cmp64!(|a, b| (a as i64) >= (b as i64)),
                Operator::I64GeU => cmp64!(|a, b| a >= b),
                Operator::F32Eq => cmpf!(f32, |a, b| a == b),
                Operator::F32Ne => cmpf!(f32, |a, b| a != b),
                Operator::F32Lt => cmpf!(f32, |a, b| a < b),
                Operator::F32Gt => cmpf!(f32, |a, b| a > b),
                Operator::F32Le => cmpf!(f32, |a, b| a <= b),
                Operator::F32Ge => cmpf!(f32, |a, b| a >= b),
                Operator::F64Eq => cmpf!(f64, |a, b| a == b),
                Operator::F64Ne => cmpf!(f64, |a, b| a != b),
                Operator::F64Lt => cmpf!(f64, |a, b| a < b),
                Operator::F64Gt => cmpf!(f64, |a, b| a > b),
                Operator::F64Le => cmpf!(f64, |a, b| a <= b),
                Operator::F64Ge => cmpf!(f64, |a, b| a >= b),

                Operator::I32Clz => {
                    let a = pop!().i32();
                    let mut n = 0;
                    while n < 32 && a & (0x8000_0000 >> n) == 0 {
                        n += 1
                    }
                    s.push(RV::I32(n))
                }
                Operator::I32Ctz => {
                    let a = pop!().i32();
                    let mut n = 0;
                    while n < 32 && a & (1 << n) == 0 {
                        n += 1
                    }
                    s.push(RV::I32(n))
                }
                Operator::I32Popcnt => {
                    let a = pop!().i32();
                    s.push(RV::I32((0..32).filter(|i| a >> i & 1 == 1).count() as u32))
                }
                Operator::I64Clz => {
                    let a = pop!().i64();
                    let mut n = 0u64;
                    while n < 64 && a & (0x8000_0000_0000_0000 >> n) == 0 {
                        n += 1
                    }
                    s.push(RV::I64(n))
                }
                Operator::I64Ctz => {
                    let a = pop!().i64();
                    let mut n = 0u64;
                    while n < 64 && a & (1 << n) == 0 {
                        n += 1
                    }
                    s.push(RV::I64(n))
                }
                Operator::I64Popcnt => {
                    let a = pop!().i64();
                    s.push(RV::I64((0..64).filter(|i| a >> i & 1 == 1).count() as u64))
                }
                Operator::I32Add => bin32!(|a, b| a.wrapping_add(b)),
                Operator::I32Sub => bin32!(|a, b| a.wrapping_sub(b)),
                Operator::I32Mul => bin32!(|a, b| a.wrapping_mul(b)),
                Operator::I32DivS => {
                    let b = pop!().i32() as i32;
                    let a = pop!().i32() as i32;
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    if a == i32::MIN && b == -1 {
                        return Err(Trap::DivOverflow.into());
                    }
                    s.push(RV::I32((a as i64 / b as i64) as u32))
                }
                Operator::I32DivU => {
                    let b = pop!().i32();
                    let a = pop!().i32();
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I32(a / b))
                }
                Operator::I32RemS => {
                    let b = pop!().i32() as i32;
                    let a = pop!().i32() as i32;
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I32((a as i64 % b as i64) as u32))
                }
                Operator::I32RemU => {
                    let b = pop!().i32();
                    let a = pop!().i32();
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I32(a % b))
                }
                Operator::I32And => bin32!(|a, b| a & b),
                Operator::I32Or => bin32!(|a, b| a | b),
                Operator::I32Xor => bin32!(|a, b| a ^ b),
                Operator::I32Shl => bin32!(|a, b| a << (b & 31)),
                Operator::I32ShrS => bin32!(|a, b| ((a as i32) >> (b & 31)) as u32),
                Operator::I32ShrU => bin32!(|a, b| a >> (b & 31)),
                Operator::I32Rotl => bin32!(|a, b| ((a as u64) << (b & 31)
                    | (a as u64) >> (32 - (b & 31))) as u32),
                Operator::I32Rotr => bin32!(|a, b| ((a as u64) >> (b & 31)
                    | (a as u64) << (32 - (b & 31))) as u32),
                Operator::I64Add => bin64!(|a, b| a.wrapping_add(b)),
                Operator::I64Sub => bin64!(|a, b| a.wrapping_sub(b)),
                Operator::I64Mul => bin64!(|a, b| a.wrapping_mul(b)),
                Operator::I64DivS => {
                    let b = pop!().i64() as i64;
                    let a = pop!().i64() as i64;
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    if a == i64::MIN && b == -1 {
                        return Err(Trap::DivOverflow.into());
                    }
                    s.push(RV::I64((a as i128 / b as i128) as u64))
                }
                Operator::I64DivU => {
                    let b = pop!().i64();
                    let a = pop!().i64();
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I64(a / b))
                }
                Operator::I64RemS => {
                    let b = pop!().i64() as i64;
                    let a = pop!().i64() as i64;
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I64((a as i128 % b as i128) as u64))
                }
                Operator::I64RemU => {
                    let b = pop!().i64();
                    let a = pop!().i64();
                    if b == 0 {
                        return Err(Trap::DivZero.into());
                    }
                    s.push(RV::I64(a % b))
                }
                Operator::I64And => bin64!(|a, b| a & b),
                Operator::I64Or => bin64!(|a, b| a | b),
                Operator::I64Xor => bin64!(|a, b| a ^ b),
                Operator::I64Shl => bin64!(|a, b| a << (b & 63)),
                Operator::I64ShrS => bin64!(|a, b| ((a as i64) >> (b & 63)) as u64),
                Operator::I64ShrU => bin64!(|a, b| a >> (b & 63)),
                Operator::I64Rotl => bin64!(|a, b| ((a as u128) << (b & 63)
                    | (a as u128) >> (64 - (b & 63))) as u64),
                Operator::I64Rotr => bin64!(|a, b| ((a as u128) >> (b & 63)
                    | (a as u128) << (64 - (b & 63))) as u64),

                Operator::F32Abs | Operator::F32Neg => {
                    if let RV::F32(x, nd) = pop!() {
                        let y = if matches!(op, Operator::F32Abs) {
                            x & 0x7fff_ffff
                        } else {
                            x ^ 0x8000_0000
                        };
                        s.push(RV::F32(y, nd));
                    }
                }
                Operator::F64Abs | Operator::F64Neg => {
                    if let RV::F64(x, nd) = pop!() {
                        let y = if matches!(op, Operator::F64Abs) {
                            x & !(1 << 63)
                        } else {
                            x ^ (1 << 63)
                        };
                        s.push(RV::F64(y, nd));
                    }
                }
                Operator::F32Copysign => {
                    let b = pop!();
                    let a = pop!();
                    if let (RV::F32(x, nx), RV::F32(y, ny)) = (a, b) {
                        if ny && f32::from_bits(y).is_nan() {
                            return Err(Ex::Stop(Out::Ambiguous));
                        }
                        s.push(RV::F32(x & 0x7fff_ffff | y & 0x8000_0000, nx));
                    }
                }
                Operator::F64Copysign => {
                    let b = pop!();
                    let a = pop!();
                    if let (RV::F64(x, nx), RV::F64(y, ny)) = (a, b) {
                        if ny && f64::from_bits(y).is_nan() {
                            return Err(Ex::Stop(Out::Ambiguous));
                        }
                        s.push(RV::F64(x & !(1 << 63) | y & (1 << 63), nx));
                    }
                }
                Operator::F32Ceil => unf!(f32, pf32, |a| ceil64(a as f64) as f32),
                Operator::F32Floor => unf!(f32, pf32, |a| floor64(a as f64) as f32),
                Operator::F32Trunc => unf!(f32, pf32, |a| trunc64(a as f64) as f32),
                Operator::F32Nearest => unf!(f32, pf32, |a| nearest64(a as f64) as f32),
                Operator::F64Ceil => unf!(f64, pf64, |a| ceil64(a)),
                Operator::F64Floor => unf!(f64, pf64, |a| floor64(a)),
                Operator::F64Trunc => unf!(f64, pf64, |a| trunc64(a)),
                Operator::F64Nearest => unf!(f64, pf64, |a| nearest64(a)),
                Operator::F32Sqrt => unf!(f32, pf32, |a| a.sqrt()),
                Operator::F64Sqrt => unf!(f64, pf64, |a| a.sqrt()),
                Operator::F32Add => binf!(f32, pf32, |a, b| a + b),
                Operator::F32Sub => binf!(f32, pf32, |a, b| a - b),
                Operator::F32Mul => binf!(f32, pf32, |a, b| a * b),
                Operator::F32Div => binf!(f32, pf32, |a, b| a / b),
                Operator::F64Add => binf!(f64, pf64, |a, b| a + b),
                Operator::F64Sub => binf!(f64, pf64, |a, b| a - b),
                Operator::F64Mul => binf!(f64, pf64, |a, b| a * b),
                Operator::F64Div => binf!(f64, pf64, |a, b| a / b),
                Operator::F32Min => binf!(f32, pf32, |a, b| fmin(a as f64, b as f64) as f32),
                Operator::F32Max => binf!(f32, pf32, |a, b| -fmin(-(a as f64), -(b as f64)) as f32),
                Operator::F64Min => binf!(f64, pf64, |a, b| fmin(a, b)),
                Operator::F64Max => binf!(f64, pf64, |a, b| -fmin(-a, -b)),

                Operator::I32WrapI64 => {
                    let a = pop!().i64();
                    s.push(RV::I32(a as u32))
                }
                Operator::I64ExtendI32S => {
                    let a = pop!().i32();
                    s.push(RV::I64(a as i32 as i64 as u64))
                }
                Operator::I64ExtendI32U => {
                    let a = pop!().i32();
                    s.push(RV::I64(a as u64))
                }
                Operator::I32Extend8S => {
                    let a = pop!().i32();
                    s.push(RV::I32(a as i8 as i32 as u32))
                }
                Operator::I32Extend16S => {
                    let a = pop!().i32();
                    s.push(RV::I32(a as i16 as i32 as u32))
                }
                Operator::I64Extend8S => {
                    let a = pop!().i64();
                    s.push(RV::I64(a as i8 as i64 as u64))
                }
                Operator::I64Extend16S => {
                    let a = pop!().i64();
                    s.push(RV::I64(a as i16 as i64 as u64))
                }
                Operator::I64Extend32S => {
                    let a = pop!().i64();
                    s.push(RV::I64(a as i32 as i64 as u64))
                }
                Operator::I32TruncF32S => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I32(trunc_to(a, 32, true, false)? as u32))
                }
                Operator::I32TruncF32U => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I32(trunc_to(a, 32, false, false)? as u32))
                }
                Operator::I32TruncF64S => {
                    let a = pop!().f64();
                    s.push(RV::I32(trunc_to(a, 32, true, false)? as u32))
                }
                Operator::I32TruncF64U => {
                    let a = pop!().f64();
                    s.push(RV::I32(trunc_to(a, 32, false, false)? as u32))
                }
                Operator::I64TruncF32S => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I64(trunc_to(a, 64, true, false)? as u64))
                }
                Operator::I64TruncF32U => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I64(trunc_to(a, 64, false, false)? as u64))
                }
                Operator::I64TruncF64S => {
                    let a = pop!().f64();
                    s.push(RV::I64(trunc_to(a, 64, true, false)? as u64))
                }
                Operator::I64TruncF64U => {
                    let a = pop!().f64();
                    s.push(RV::I64(trunc_to(a, 64, false, false)? as u64))
                }
                Operator::I32TruncSatF32S => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I32(trunc_to(a, 32, true, true)? as u32))
                }
                Operator::I32TruncSatF32U => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I32(trunc_to(a, 32, false, true)? as u32))
                }
                Operator::I32TruncSatF64S => {
                    let a = pop!().f64();
                    s.push(RV::I32(trunc_to(a, 32, true, true)? as u32))
                }
                Operator::I32TruncSatF64U => {
                    let a = pop!().f64();
                    s.push(RV::I32(trunc_to(a, 32, false, true)? as u32))
                }
                Operator::I64TruncSatF32S => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I64(trunc_to(a, 64, true, true)? as u64))
                }
                Operator::I64TruncSatF32U => {
                    let a = pop!().f32() as f64;
                    s.push(RV::I64(trunc_to(a, 64, false, true)? as u64))
                }
                Operator::I64TruncSatF64S => {
                    let a = pop!().f64();
                    s.push(RV::I64(trunc_to(a, 64, true, true)? as u64))
                }
                Operator::I64TruncSatF64U => {
                    let a = pop!().f64();
                    s.push(RV::I64(trunc_to(a, 64, false, true)? as u64))
                }
                Operator::F32ConvertI32S => {
                    let a = pop!().i32() as i32;
                    s.push(pf32(int_to_f32(a as i128)))
                }
                Operator::F32ConvertI32U => {
                    let a = pop!().i32();
                    s.push(pf32(int_to_f32(a as i128)))
                }
                Operator::F32ConvertI64S => {
                    let a = pop!().i64() as i64;
                    s.push(pf32(int_to_f32(a as i128)))
                }
                Operator::F32ConvertI64U => {
                    let a = pop!().i64();
                    s.push(pf32(int_to_f32(a as i128)))
                }
                Operator::F64ConvertI32S => {
                    let a = pop!().i32() as i32;
                    s.push(pf64(int_to_f64(a as i128)))
                }
                Operator::F64ConvertI32U => {
                    let a = pop!().i32();
                    s.push(pf64(int_to_f64(a as i128)))
                }
                Operator::F64ConvertI64S => {
                    let a = pop!().i64() as i64;
                    s.push(pf64(int_to_f64(a as i128)))
                }
                Operator::F64ConvertI64U => {
                    let a = pop!().i64();
                    s.push(pf64(int_to_f64(a as i128)))
                }
                Operator::F32DemoteF64 => unf!(f64, pf32, |a| a as f32),
                Operator::F64PromoteF32 => unf!(f32, pf64, |a| a as f64),
                Operator::I32ReinterpretF32 => {
                    if let RV::F32(x, nd) = pop!() {
                        if nd {
                            return Err(Ex::Stop(Out::Ambiguous));
                        }
                        s.push(RV::I32(x));
                    }
                }
                Operator::I64ReinterpretF64 => {
                    if let RV::F64(x, nd) = pop!() {
                        if nd {
                            return Err(Ex::Stop(Out::Ambiguous));
                        }
                        s.push(RV::I64(x));
                    }
                }
                Operator::F32ReinterpretI32 => {
                    let a = pop!().i32();
                    s.push(RV::F32(a, false))
                }
                Operator::F64ReinterpretI64 => {
                    let a = pop!().i64();
                    s.push(RV::F64(a, false))
                }
                _ => {
                    UNSUP.with(|x| x.set(true));
                    return Err(Ex::Stop(Out::Ambiguous));
                }
            }
            pc += 1;
        }
    }
}

/// Rounding on the bit pattern (independent of the libm routines chiwawa uses).
fn trunc64(x: f64) -> f64 {
    if x.is_nan() {
        return f64::NAN;
    }
    let b = x.to_bits();
    let e = ((b >> 52) & 0x7ff) as i32 - 1023;
    if e >= 52 {
        return x;
    }
    if e < 0 {
        return f64::from_bits(b & (1 << 63));
    }
    let mask = (1u64 << (52 - e)) - 1;
    f64::from_bits(b & !mask)
}
fn floor64(x: f64) -> f64 {
    let t = trunc64(x);
    if x < t {
        t - 1.0
    } else {
        t
    }
}
fn ceil64(x: f64) -> f64 {
    -floor64(-x)
}
fn nearest64(x: f64) -> f64 {
    if x.is_nan() {
        return f64::NAN;
    }
    let t = trunc64(x);
    let d = (x - t).abs();
    let step = if x.is_sign_negative() { -1.0 } else { 1.0 };
    let odd = (t / 2.0) != trunc64(t / 2.0);
    if d > 0.5 || (d == 0.5 && odd) {
        t + step
    } else {
        t
    }
}
fn fmin(a: f64, b: f64) -> f64 {
    if a.is_nan() || b.is_nan() {
        return f64::NAN;
    }
    if a == 0.0 && b == 0.0 {
        return f64::from_bits(a.to_bits() | b.to_bits());
    }
    if a < b {
        a
    } else {
        b
    }
}
fn trunc_to(x: f64, bits: u32, signed: bool, sat: bool) -> Result<i128, Ex> {
    let (lo, hi): (i128, i128) = if signed {
        (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)
    } else {
        (0, (1i128 << bits) - 1)
    };
    if x.is_nan() {
        return if sat { Ok(0) } else { Err(Trap::TruncInvalid.into()) };
    }
    if x.is_infinite() || x.abs() >= 1e30 {
        return if sat {
            Ok(if x > 0.0 { hi } else { lo })
        } else {
            Err(Trap::TruncOverflow.into())
        };
    }
    // exact: |x| < 1e30 fits an i128 after truncation
    let t = trunc64(x) as i128;
    if t < lo || t > hi {
        return if sat {
            Ok(if t < lo { lo } else { hi })
        } else {
            Err(Trap::TruncOverflow.into())
        };
    }
    Ok(t)
}
/// Correctly rounded (ties to even) integer to float, done on bits.
fn round_int(a: i128, mant: u32) -> (bool, u128, i32) {
    let neg = a < 0;
    let u = a.unsigned_abs();
    if u == 0 {
        return (neg, 0, 0);
    }
    let len = 128 - u.leading_zeros();
    if len <= mant {
        return (neg, u, 0);
    }
    let sh = len - mant;
    let q = u >> sh;
    let r = u & ((1 << sh) - 1);
    let half = 1u128 << (sh - 1);
    let q = if r > half || (r == half && q & 1 == 1) { q + 1 } else { q };
    (neg, q, sh as i32)
}
fn int_to_f64(a: i128) -> f64 {
    let (n, q, sh) = round_int(a, 53);
    // q < 2^54 with at most 53 significant bits, exact; scaling by a power of two is exact
    let v = q as u64 as f64 * f64::from_bits(((1023 + sh) as u64) << 52);
    if n {
        -v
    } else {
        v
    }
}
fn int_to_f32(a: i128) -> f32 {
    let (n, q, sh) = round_int(a, 24);
    let v = (q as u64 as f64 * f64::from_bits(((1023 + sh) as u64) << 52)) as f32;
    if n {
        -v
    } else {
        v
    }
}
fn solid(o: &Operator) -> bool {
    use Operator::*;
    !matches!(
        o,
        LocalGet { .. } | LocalSet { .. } | LocalTee { .. } | I32Const { .. } | I64Const { .. } | F32Const { .. } | F64Const { .. } | Block { .. } | Loop { .. } | End | Else | Drop | Nop | Return | RefNull { .. }
    )
}
