//! Runs the real interpreter in-process and observes everything a guest can affect.
use crate::gen::T;
use crate::host;
use crate::hostmodel::{Ent, HostModel};
use crate::refi::{FT, Out, RInstView, RV};
use chiwawa::error::RuntimeError;
use chiwawa::execution::func::FuncAddr;
use chiwawa::execution::migration;
use chiwawa::execution::module::{ImportObjects, ModuleInst};
use chiwawa::execution::runtime::Runtime;
use chiwawa::execution::value::{Externval, Num, Ref, Val};
use chiwawa::parser;
use chiwawa::structure::module::Module;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

thread_local! { pub static TICK: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
    pub static DEPTH: std::cell::Cell<usize> = const { std::cell::Cell::new(400) };
    pub static OPS: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
    pub static PANIC: std::cell::RefCell<String> = Default::default(); }
pub fn hook() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = format!("{}", i).replace('\n', " "));
        if std::env::var("VH_PANIC").is_ok() {
            eprintln!("{}", i);
        }
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Ok(x),
        Err(_) => Err(PANIC.with(|p| p.borrow().clone())),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum CV {
    I32(u32),
    I64(u64),
    F32(u32),
    F64(u64),
    Null,
    Func(Option<u32>),
    Extern,
    V128,
}
#[derive(Clone, Debug, PartialEq)]
pub enum COut {
    Ok(Vec<CV>),
    Trap(String),
    Ckpt,
}
pub struct CInst {
    pub module: Module,
    pub inst: Rc<ModuleInst>,
}
pub fn val(t: T, bits: u64) -> Val {
    match t {
        T::I32 => Val::Num(Num::I32(bits as u32 as i32)),
        T::I64 => Val::Num(Num::I64(bits as i64)),
        T::F32 => Val::Num(Num::F32(f32::from_bits(bits as u32))),
        T::F64 => Val::Num(Num::F64(f64::from_bits(bits))),
        _ => Val::Ref(Ref::RefNull),
    }
}
pub fn rval(t: T, bits: u64) -> RV {
    match t {
        T::I32 => RV::I32(bits as u32),
        T::I64 => RV::I64(bits),
        T::F32 => RV::F32(bits as u32, false),
        T::F64 => RV::F64(bits, false),
        T::Fn => RV::FuncRef(None),
        T::Ex => RV::ExternRef(None),
    }
}
pub fn fidx(inst: &ModuleInst, f: &FuncAddr) -> Option<u32> {
    let n = inst.func_addrs.len();
    if n < 64 {
        return inst.func_addrs.iter().position(|x| Rc::ptr_eq(x.get_rc(), f.get_rc())).map(|x| x as u32);
    }
    thread_local!(static INDEX: std::cell::RefCell<std::collections::HashMap<usize, u32>> = Default::default());
    let p = Rc::as_ptr(f.get_rc()) as *const u8 as usize;
    // a remembered index is only a guess (instances come and go): it is checked
    let at = |i: Option<u32>| i.filter(|&i| (i as usize) < n && Rc::ptr_eq(inst.func_addrs[i as usize].get_rc(), f.get_rc()));
    INDEX.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(i) = at(m.get(&p).copied()) {
            return Some(i);
        }
        m.clear();
        for (i, x) in inst.func_addrs.iter().enumerate().rev() {
            m.insert(Rc::as_ptr(x.get_rc()) as *const u8 as usize, i as u32);
        }
        at(m.get(&p).copied())
    })
}
pub fn cv(inst: &ModuleInst, v: &Val) -> CV {
    match v {
        Val::Num(Num::I32(x)) => CV::I32(*x as u32),
        Val::Num(Num::I64(x)) => CV::I64(*x as u64),
        Val::Num(Num::F32(x)) => CV::F32(x.to_bits()),
        Val::Num(Num::F64(x)) => CV::F64(x.to_bits()),
        Val::Ref(Ref::RefNull) => CV::Null,
        Val::Ref(Ref::FuncAddr(f)) => CV::Func(fidx(inst, f)),
        Val::Ref(_) => CV::Extern,
        Val::Vec_(_) => CV::V128,
    }
}
pub fn parse(wasm: &[u8]) -> Result<Module, String> {
    let p = "./guest.wasm";
    std::fs::write(p, wasm).map_err(|e| e.to_string())?;
    match guarded(|| {
        let mut m = Module::new("test");
        match parser::parse_bytecode(&mut m, p) {
            Ok(_) => Ok(m),
            Err(e) => Err(format!("{}", e)),
        }
    }) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {}", p)),
    }
}
pub fn instantiate(module: Module, imports: ImportObjects, argv: Vec<String>) -> Result<CInst, String> {
    match guarded(|| ModuleInst::new(&module, imports, argv)) {
        Ok(Ok(inst)) => {
            host::ctx().mem = inst.mem_addrs.first().cloned();
            Ok(CInst { module, inst })
        }
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}
pub fn load(wasm: &[u8], argv: &[String]) -> Result<CInst, String> {
    instantiate(parse(wasm)?, Default::default(), argv.to_vec())
}
/// run the module's start function, as main does before the first invocation
pub fn start(ci: &CInst) -> Result<(), String> {
    match guarded(|| Runtime::run_start(&ci.inst)) {
        Ok(Ok(())) => Ok(()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(p) => Err(format!("panic: {}", p)),
    }
}
#[derive(Clone, Default)]
pub struct RunOpt {
    pub stats: bool,
    pub cr: bool,
    /// trace events, resources, output file
    pub trace: Option<(Vec<String>, Vec<String>, String)>,
}
#[cfg(feature = "trace")]
fn tc(o: &RunOpt) -> Option<chiwawa::execution::trace::TraceConfig> {
    o.trace
        .clone()
        .map(|t| chiwawa::execution::trace::TraceConfig::new(Some(t.0), Some(t.1), Some(t.2)))
}
pub fn fin(inst: &ModuleInst, r: Result<Result<Vec<Val>, RuntimeError>, String>) -> COut {
    match r {
        Ok(Ok(v)) => COut::Ok(v.iter().map(|x| cv(inst, x)).collect()),
        Ok(Err(RuntimeError::CheckpointRequested)) => COut::Ckpt,
        Ok(Err(e)) => COut::Trap(format!("{:?}", e)),
        Err(p) => COut::Trap(format!("panic: {}", p)),
    }
}
pub fn call(ci: &CInst, name: &str, args: &[(T, u64)], o: &RunOpt) -> COut {
    let inst = ci.inst.clone();
    let params: Vec<Val> = args.iter().map(|a| val(a.0, a.1)).collect();
    let r = guarded(|| {
        let f = inst.get_export_func(name)?;
        let mut rt = Runtime::new(
            inst.clone(),
            &f,
            params,
            o.stats,
            o.cr,
            #[cfg(feature = "trace")]
            tc(o),
        )?;
        rt.run()
    });
    fin(&ci.inst, r)
}
pub fn resume(ci: &CInst, path: &str, o: &RunOpt) -> Result<COut, String> {
    let inst = ci.inst.clone();
    let st = match guarded(|| migration::restore(inst.clone(), path)) {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => return Err(format!("{:?}", e)),
        Err(p) => return Err(format!("panic: {}", p)),
    };
    host::ctx().mem = inst.mem_addrs.first().cloned();
    let r = guarded(|| {
        let mut rt = Runtime::new_restored(
            inst.clone(),
            st,
            o.stats,
            o.cr,
            #[cfg(feature = "trace")]
            tc(o),
        );
        rt.run()
    });
    Ok(fin(&ci.inst, r))
}

/// everything observable after a run
#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub mem: Option<Vec<u8>>,
    pub globals: Vec<CV>,
    pub tables: Vec<Vec<CV>>,
}
pub fn state(ci: &CInst) -> State {
    State {
        mem: ci.inst.mem_addrs.first().map(|m| m.get_data()),
        globals: ci.inst.global_addrs.iter().map(|g| cv(&ci.inst, &g.get())).collect(),
        tables: ci
            .inst
            .table_addrs
            .iter()
            .map(|t| t.read_lock().elem.iter().map(|v| cv(&ci.inst, v)).collect())
            .collect(),
    }
}

pub fn same(r: &RV, c: &CV) -> bool {
    match (r, c) {
        (RV::I32(a), CV::I32(b)) => a == b,
        (RV::I64(a), CV::I64(b)) => a == b,
        (RV::F32(a, nd), CV::F32(b)) => a == b || *nd && f32::from_bits(*b).is_nan() && f32::from_bits(*a).is_nan(),
        (RV::F64(a, nd), CV::F64(b)) => a == b || *nd && f64::from_bits(*b).is_nan() && f64::from_bits(*a).is_nan(),
        (RV::FuncRef(None), CV::Null) | (RV::ExternRef(None), CV::Null) => true,
        (RV::FuncRef(Some(a)), CV::Func(Some(b))) => a == b,
        _ => false,
    }
}
pub fn same_all(r: &[RV], c: &[CV]) -> bool {
    r.len() == c.len() && r.iter().zip(c).all(|(a, b)| same(a, b))
}

/// What the reference predicts for a program.
pub struct Expect {
    pub outs: Vec<Out>,
    pub view: RInstView,
    pub log: Vec<Ent>,
    pub used: u64,
    pub ops: u64,
    pub calls: u64,
    pub branches: u64,
    pub depth: u32,
    pub ops_seen: Vec<(String, u64)>,
    pub inst: Result<(), String>,
    pub started: bool,
    pub tick_used: Vec<u64>,
    pub host_used: Vec<u64>,
}
impl Expect {
    pub fn discard(&self) -> bool {
        self.outs.iter().any(|o| matches!(o, Out::Fuel | Out::Ambiguous | Out::Exit(_)))
    }
    pub fn trapped(&self) -> bool {
        self.outs.iter().any(|o| matches!(o, Out::Trap(_)))
    }
}
pub fn diff_state(v: &RInstView, s: &State) -> Option<String> {
    match (&v.mem, &s.mem) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            if a.len() != b.len() {
                return Some(format!("memory size: specification {} bytes, chiwawa {} bytes", a.len(), b.len()));
            }
            if a != b {
                for i in 0..a.len() {
                    if a[i] != b[i] && !v.nd.contains(&(i as u32)) {
                        return Some(format!("memory byte {:#x}: specification {:#04x}, chiwawa {:#04x}", i, a[i], b[i]));
                    }
                }
            }
        }
        _ => return Some("memory presence differs".into()),
    }
    for (i, (a, b)) in v.globals.iter().zip(&s.globals).enumerate() {
        if !same(a, b) {
            return Some(format!("global {}: specification {:?}, chiwawa {:?}", i, a, b));
        }
    }
    if v.globals.len() != s.globals.len() {
        return Some("number of globals differs".into());
    }
    for (i, (a, b)) in v.tables.iter().zip(&s.tables).enumerate() {
        if a.len() != b.len() {
            return Some(format!("table {} size differs", i));
        }
        for (j, (x, y)) in a.iter().zip(b).enumerate() {
            if !same(x, y) {
                return Some(format!("table {} entry {}: specification {:?}, chiwawa {:?}", i, j, x, y));
            }
        }
    }
    None
}
pub fn diff_log(a: &[Ent], b: &[Ent]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => return Some(format!("host call {}: specification {:?}, chiwawa {:?}", i, x, y)),
        }
    }
    None
}
pub fn diff_out(r: &Out, c: &COut) -> Option<String> {
    match (r, c) {
        (Out::Ok(a), COut::Ok(b)) => {
            if same_all(a, b) {
                None
            } else {
                Some(format!("results: specification {:?}, chiwawa {:?}", a, b))
            }
        }
        (Out::Trap(_), COut::Trap(_)) => None,
        _ => Some(format!("outcome: specification {:?}, chiwawa {:?}", r, c)),
    }
}
pub fn argv_of(h: &HostModel) -> Vec<String> {
    h.argv.iter().map(|v| String::from_utf8_lossy(v).into_owned()).collect()
}
pub fn func_export(ci: &CInst, name: &str) -> Option<Externval> {
    ci.inst.get_export_func(name).ok().map(Externval::Func)
}
pub fn t_of(v: wasmparser::ValType) -> T {
    match v {
        wasmparser::ValType::I32 => T::I32,
        wasmparser::ValType::I64 => T::I64,
        wasmparser::ValType::F32 => T::F32,
        wasmparser::ValType::F64 => T::F64,
        wasmparser::ValType::Ref(r) if r.is_extern_ref() => T::Ex,
        _ => T::Fn,
    }
}
pub fn ft_nums(f: &FT) -> Vec<T> {
    f.params.iter().map(|v| t_of(*v)).collect()
}
