//! C26: statistics and tracing change nothing and record what was executed.
use crate::chk::*;
use crate::ckpt;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::refi::*;

const OUT: &str = "./trace.out";
const ERR: &str = "./stderr.out";
fn sub(cx: &mut Cx, all: &[&str]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for x in all {
        if cx.r.chance(1, 2) {
            v.push(if cx.r.chance(1, 5) { x.to_uppercase() } else { x.to_string() });
        }
    }
    v
}
fn opts(cx: &mut Cx) -> RunOpt {
    let ev = sub(cx, &["all", "store", "load", "call", "branch"]);
    let rs = sub(cx, &["pc", "regs", "memory", "locals", "globals"]);
    let mut o = RunOpt { stats: cx.r.chance(1, 2), cr: false, trace: Some((ev, rs, OUT.into())) };
    if cx.r.chance(1, 8) {
        o.trace = None;
        o.stats = true;
    }
    o
}
fn prof(cx: &mut Cx) -> Prof {
    match cx.r.below(3) {
        0 => crate::props::ck_prof(cx),
        1 => Prof { refs: true, s_table: 10, e_ind: 10, ..base() },
        _ => Prof { tw: [3, 3, 3, 3], s_br: 14, s_ctrl: 14, ..base() },
    }
}
/// results, memory, globals, tables, host calls and checkpoints with instrumentation on
pub fn neutral(cx: &mut Cx) -> V {
    let p = prof(cx);
    let pr = program(&mut cx.r, &p);
    let h = HostModel::new(pr.host_seed);
    let o = opts(cx);
    let quiet = Quiet::new();
    let v = if cx.r.chance(1, 3) {
        let e = match ckpt::reference(cx, &pr.wasm, &pr.calls, &h, 4000) {
            Ok(e) => e,
            Err(v) => return v,
        };
        let ck = cx.r.below(e.outs.len());
        let oo = RunOpt { cr: true, ..o.clone() };
        let n = match ckpt::interrupted(&pr.wasm, &pr.calls, &h, &e, ck, &mut |_| None, &oo) {
            Ok(r) => r.polls,
            Err(d) => return V::Bad(format!("{:?}: {}", o.trace, d)),
        };
        // as many polls as without instrumentation
        let n0 = match ckpt::interrupted(&pr.wasm, &pr.calls, &h, &e, ck, &mut |_| None, &ckpt::CR) {
            Ok(r) => r.polls,
            Err(d) => return V::Bad(d),
        };
        if n != n0 {
            return V::Bad(format!("{} checkpoint polls with instrumentation, {} without", n, n0));
        }
        if n == 0 {
            return V::Discard;
        }
        let at = 1 + cx.r.u64() % n;
        let a = ckpt::image_with(&pr.wasm, &pr.calls, &h, ck, at, &oo);
        let b = ckpt::image_with(&pr.wasm, &pr.calls, &h, ck, at, &ckpt::CR);
        if a.is_none() || a != b {
            return V::Bad(format!("checkpoint image at poll {} of {} differs with instrumentation {:?} (written: {} and {})", at, n, o.trace, a.is_some(), b.is_some()));
        }
        cx.add("images compared with and without instrumentation", 1);
        match ckpt::interrupted(&pr.wasm, &pr.calls, &h, &e, ck, &mut |s| if s < 3 { Some(2 + at / (s + 1)) } else { None }, &oo) {
            Ok(_) => V::Ok,
            Err(d) => V::Bad(format!("{:?}: {}", o.trace, d)),
        }
    } else {
        compare(cx, &pr.wasm, &pr.calls, &h, 8000, true, &o)
    };
    drop(quiet);
    match v {
        V::Bad(d) => V::Bad(format!("with {:?}, statistics {}: {}", o.trace, o.stats, d)),
        v => v,
    }
}
/// standard error goes to a file while this lives
pub struct Quiet(i32);
impl Quiet {
    pub fn new() -> Quiet {
        unsafe {
            let old = libc::dup(2);
            let f = std::ffi::CString::new(ERR).unwrap();
            let n = libc::open(f.as_ptr(), libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_APPEND, 0o600);
            libc::dup2(n, 2);
            libc::close(n);
            Quiet(old)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 2);
            libc::close(self.0);
        }
    }
}
#[derive(Debug, Clone, PartialEq)]
struct Line {
    pc: bool,
    name: String,
    regs: Option<[Vec<String>; 4]>,
    locals: Option<Vec<String>>,
    globals: Option<Vec<String>>,
}
fn list(s: &str) -> Vec<String> {
    let s = s.trim_start_matches('[').trim_end_matches(']');
    if s.is_empty() {
        vec![]
    } else {
        s.split(',').map(|x| x.to_string()).collect()
    }
}
/// `{I32[r0:1,r1:2], F64[r0:0.5]}` or `[]`
fn regs(s: &str) -> Option<[Vec<String>; 4]> {
    let mut v: [Vec<String>; 4] = Default::default();
    if s == "[]" {
        return Some(v);
    }
    for part in s.strip_prefix('{')?.strip_suffix('}')?.split("], ") {
        let (k, r) = part.trim_end_matches(']').split_once('[')?;
        let k = ["I32", "I64", "F32", "F64"].iter().position(|x| *x == k)?;
        for (i, e) in r.split(',').enumerate() {
            let (n, x) = e.split_once(':')?;
            if n.strip_prefix('r')?.parse::<usize>().ok()? != i {
                return None;
            }
            v[k].push(x.to_string());
        }
    }
    Some(v)
}
thread_local!(static HELD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
/// operands the function pushed well before the instruction are held in registers
fn held(stack: &[RV], regs: &[Vec<String>; 4]) -> Option<String> {
    for v in &stack[..stack.len().saturating_sub(4)] {
        let (k, s) = match v {
            RV::I32(x) => (0, format!("{}", *x as i32)),
            RV::I64(x) => (1, format!("{}", *x as i64)),
            RV::F32(x, _) => (2, format!("{}", f32::from_bits(*x))),
            RV::F64(x, _) => (3, format!("{}", f64::from_bits(*x))),
            _ => continue,
        };
        HELD.with(|h| h.set(h.get() + 1));
        if !regs[k].contains(&s) {
            return Some(format!("the operand {:?} is in no register of the trace", v));
        }
    }
    None
}
fn read_trace() -> Result<Vec<Line>, String> {
    let t = std::fs::read_to_string(OUT).map_err(|e| format!("no trace file: {}", e))?;
    let mut v = vec![];
    for l in t.lines() {
        let b = l.strip_prefix('[').and_then(|x| x.strip_suffix(']')).ok_or(format!("malformed trace line {}", cut(l, 200)))?;
        let mut x = Line { pc: false, name: String::new(), regs: None, locals: None, globals: None };
        for part in b.split(" | ") {
            let (k, r) = part.split_once(':').ok_or(format!("malformed trace line {}", cut(l, 200)))?;
            match k {
                "PC" => x.pc = true,
                "Instr" => x.name = r.to_string(),
                "Regs" => x.regs = Some(regs(r).ok_or(format!("malformed registers in trace line {}", cut(l, 300)))?),
                "Locals" => x.locals = Some(list(r)),
                "Globals" => x.globals = Some(list(r)),
                _ => return Err(format!("unknown part in trace line {}", cut(l, 200))),
            }
        }
        v.push(x);
    }
    Ok(v)
}
/// one spelling for the specification's and chiwawa's operator names; None: bookkeeping that the
/// translation may fuse or drop
pub fn canon(n: &str) -> Option<String> {
    let c: String = n.chars().filter(|c| c.is_alphanumeric()).collect::<String>().to_lowercase();
    let c = match c.as_str() {
        "callwasi" | "callhost" => "call".to_string(),
        "typedselect" => "select".to_string(),
        _ => c,
    };
    match c.as_str() {
        "localget" | "localset" | "localtee" | "i32const" | "i64const" | "f32const" | "f64const" | "block" | "loop" | "end" | "else" | "drop" | "nop" | "return" | "refnull" => None,
        _ => Some(c),
    }
}
fn class(n: &str) -> Vec<&'static str> {
    let mut v = vec![];
    if n.contains(".load") {
        v.push("load");
    }
    if n.contains(".store") {
        v.push("store");
    }
    if n == "call" || n == "call_indirect" {
        v.push("call");
    }
    if n == "br" || n == "br_if" || n == "br_table" {
        v.push("branch");
    }
    v
}
fn show(v: &RV) -> Option<String> {
    Some(match v {
        RV::I32(x) => format!("I32({})", *x as i32),
        RV::I64(x) => format!("I64({})", *x as i64),
        RV::F32(x, _) => format!("F32({})", f32::from_bits(*x)),
        RV::F64(x, _) => format!("F64({})", f64::from_bits(*x)),
        _ => return None,
    })
}
fn same_vals(what: &str, r: &[RV], c: &[String]) -> Option<String> {
    if r.len() != c.len() {
        return Some(format!("{}: {} values, the trace shows {}", what, r.len(), c.len()));
    }
    for (i, (a, b)) in r.iter().zip(c).enumerate() {
        if let Some(s) = show(a) {
            if &s != b {
                return Some(format!("{} {}: {} but the trace shows {}", what, i, s, b));
            }
        }
    }
    None
}
type RefTrace = Vec<(String, Vec<RV>, Vec<RV>, Vec<RV>)>;
fn check_trace(rt: &RefTrace, ct: &[Line]) -> Option<String> {
    let a: Vec<(String, &(String, Vec<RV>, Vec<RV>, Vec<RV>))> = rt.iter().filter_map(|x| canon(&x.0).map(|n| (n, x))).collect();
    let b: Vec<(String, &Line)> = ct.iter().filter_map(|x| canon(&x.name).map(|n| (n, x))).collect();
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => {
                if x.0 != y.0 {
                    return Some(format!("executed instruction {} is {}, the trace lists {} (executed around: {:?})", i, x.0, y.0, a[i.saturating_sub(3)..(i + 3).min(a.len())].iter().map(|z| z.0.as_str()).collect::<Vec<_>>()));
                }
                if let Some(l) = &y.1.regs {
                    if let Some(d) = held(&x.1 .3, l) {
                        return Some(format!("at instruction {} ({}): {}", i, x.0, d));
                    }
                }
                if let Some(l) = &y.1.locals {
                    if let Some(d) = same_vals("local", &x.1 .1, l) {
                        return Some(format!("at instruction {} ({}): {}", i, x.0, d));
                    }
                }
                if let Some(l) = &y.1.globals {
                    if let Some(d) = same_vals("global", &x.1 .2, l) {
                        return Some(format!("at instruction {} ({}): {}", i, x.0, d));
                    }
                }
            }
            (Some(x), None) => return Some(format!("the trace ends before instruction {} ({}) of {}", i, x.0, a.len())),
            (None, Some(y)) => return Some(format!("the trace lists {} after the last executed instruction", y.0)),
            _ => {}
        }
    }
    None
}
fn rep(name: &str, n: &str) -> Option<u64> {
    name.trim_start().strip_prefix(n).and_then(|x| x.split_whitespace().next()).and_then(|x| x.parse().ok())
}
/// statistics printed at the end of a run against the trace of the same run
fn check_stats(lines: &[Line]) -> Option<String> {
    let t = std::fs::read_to_string(ERR).unwrap_or_default();
    let total = t.lines().find_map(|l| rep(l, "Total instructions executed:"));
    if total != Some(lines.len() as u64) {
        return Some(format!("{} instructions traced, the statistics report {:?}", lines.len(), total));
    }
    for l in t.lines().skip_while(|l| !l.starts_with("Top Instructions")) {
        let mut w = l.split_whitespace();
        if let (Some(n), Some(k)) = (w.next(), w.next()) {
            if let (Some(n), Ok(k)) = (n.strip_suffix(':'), k.parse::<u64>()) {
                let c = lines.iter().filter(|x| x.name == n).count() as u64;
                // several instructions share these names
                let shared = matches!(n, "select" | "global.get" | "global.set" | "local.get" | "local.set");
                if if shared { k > c } else { k != c } {
                    return Some(format!("{} executed {} times, the statistics report {}", n, c, k));
                }
            }
        }
    }
    None
}
/// the trace of every call against the operators the reference executes
pub fn faithful(cx: &mut Cx) -> V {
    let p = Prof { start: false, ..prof(cx) };
    let pr = program(&mut cx.r, &p);
    traced(cx, &pr.wasm, &pr.calls, HostModel::new(pr.host_seed), 4000)
}
pub fn faithful_shapes(cx: &mut Cx) -> V {
    let (w, c) = crate::shape::some(cx, 3);
    traced(cx, &w, &c, HostModel::new(1), 4000)
}
pub fn neutral_shapes(cx: &mut Cx) -> V {
    let (w, c) = crate::shape::some(cx, 4);
    let o = opts(cx);
    let quiet = Quiet::new();
    let v = compare(cx, &w, &c, &HostModel::new(1), 8000, true, &o);
    drop(quiet);
    match v {
        V::Bad(d) => V::Bad(format!("with {:?}, statistics {}: {}", o.trace, o.stats, d)),
        v => v,
    }
}
/// more than 2^16 events in one invocation
pub fn faithful_long(cx: &mut Cx) -> V {
    use crate::gen::T;
    use crate::mb::*;
    use wasm_encoder::{BlockType, Instruction as I};
    let r = &mut cx.r;
    let mut mb = MB::new();
    mb.mem = Some((1, Some(1)));
    mb.global(T::I32, true, 3);
    mb.func(None, &[T::I64], &[T::I64], &[], vec![I::LocalGet(0), I::I64Const(7), I::I64Rotl, I::GlobalGet(0), I::I32Const(1), I::I32Add, I::GlobalSet(0)]);
    let mut parts: Vec<Vec<I<'static>>> = vec![
        vec![I::LocalGet(0), I::I32Const(4088), I::I32And, I::LocalGet(1), I::I64Store(ma(8, 0))],
        vec![I::LocalGet(0), I::I32Const(2040), I::I32And, I::I64Load32U(ma(0, 0)), I::LocalGet(1), I::I64Xor, I::LocalSet(1)],
        vec![I::LocalGet(0), I::I32Const(3), I::I32And, I::I32Eqz, I::If(BlockType::Empty), I::LocalGet(1), I::Call(0), I::LocalSet(1), I::End],
        vec![I::Block(BlockType::Empty), I::Block(BlockType::Empty), I::LocalGet(0), I::I32Const(3), I::I32And, I::BrTable(vec![0, 1].into(), 0), I::End, I::LocalGet(1), I::I64Const(31), I::I64Mul, I::LocalSet(1), I::End],
        vec![I::LocalGet(1), I::LocalGet(0), I::I64ExtendI32U, I::I64Add, I::LocalSet(1)],
    ];
    let k = r.below(parts.len());
    parts.rotate_left(k);
    parts.truncate(2 + r.below(4));
    let each: usize = parts.iter().map(|p| p.len()).sum();
    let mut c = vec![I::Loop(BlockType::Empty)];
    c.extend(parts.concat());
    c.extend([I::LocalGet(0), I::I32Const(1), I::I32Sub, I::LocalTee(0), I::BrIf(0), I::End, I::LocalGet(1)]);
    mb.func(Some("f"), &[T::I32, T::I64], &[T::I64], &[], c);
    let w = mb.finish();
    let n = (140_000 + r.below(60_000)) / (each + 5);
    let x = r.u64();
    let a = |n: u64| crate::gen::Call { name: "f".into(), args: vec![(T::I32, n), (T::I64, x)] };
    traced(cx, &w, &[a(n as u64), a(9)], HostModel::new(1), 500_000)
}
pub fn neutral_large(cx: &mut Cx) -> V {
    let (w, c) = crate::big::few(cx, 3);
    let mut o = opts(cx);
    if let Some((_, rs, _)) = &mut o.trace {
        // a line that shows every one of 2^16 locals or globals at every instruction would be all there is
        *rs = vec!["pc".into()];
    }
    let quiet = Quiet::new();
    let v = crate::big::deep(|| compare(cx, &w, &c, &HostModel::new(1), 1_000_000, true, &o));
    drop(quiet);
    match v {
        V::Bad(d) => V::Bad(format!("with {:?}, statistics {}: {}", o.trace, o.stats, d)),
        v => v,
    }
}
fn traced(cx: &mut Cx, wasm: &[u8], calls: &[crate::gen::Call], h: HostModel, fuel: u64) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    cx.case(wasm, cut(&format!("{:?} host seed {}", calls, h.seed), 20000));
    let m = match RModule::decode(wasm) {
        Ok(m) => m,
        Err(e) => return V::Bad(format!("harness: {}", e)),
    };
    OPS.with(|x| x.set(cx.collect_ops));
    let e = expect_m(&m, calls, &h, fuel, true);
    if e.discard() || e.inst.is_err() {
        return V::Discard;
    }
    cx.observe(&e);
    let mut rh = h.clone();
    let (mut ri, _) = RefInst::new(&m, &mut rh);
    ri.fuel = fuel;
    ri.max_depth = DEPTH.with(|d| d.get());
    host::reset(h.clone());
    let argv = argv_of(&h);
    let mut ci = match load(wasm, &argv) {
        Ok(c) => c,
        Err(x) => return V::Bad(x),
    };
    let classes = sub(cx, &["store", "load", "call", "branch"]);
    for (i, c) in calls.iter().enumerate().take(e.outs.len()) {
        let args: Vec<RV> = c.args.iter().map(|a| rval(a.0, a.1)).collect();
        ri.tr = Some(vec![]);
        ri.invoke(m.export_func(&c.name).unwrap(), &args);
        let rt = ri.tr.take().unwrap();
        let mode = cx.r.below(4);
        let ev: Vec<String> = if mode == 1 { classes.clone() } else { vec!["all".into()] };
        let rs: Vec<String> = if mode == 2 { sub(cx, &["pc", "regs", "memory", "locals", "globals"]) } else { if cx.r.chance(1, 2) { vec!["pc".into(), "locals".into(), "globals".into()] } else { vec!["regs".into()] } };
        let mut o = RunOpt { stats: mode != 1, cr: mode == 3, trace: Some((ev.clone(), rs.clone(), OUT.into())) };
        let q = Quiet::new();
        let mut lines: Vec<Line> = vec![];
        let mut parts = 1;
        if mode == 3 {
            let _ = std::fs::remove_file(ckpt::IMG);
            ckpt::fire(1 + cx.r.u64() % (rt.len() as u64 + 1));
            o.stats = false;
        }
        let mut co = call(&ci, &c.name, &c.args, &o);
        loop {
            match read_trace() {
                Ok(l) => lines.extend(l),
                Err(d) => return V::Bad(d),
            }
            if co != COut::Ckpt {
                break;
            }
            parts += 1;
            ci = match load(wasm, &argv) {
                Ok(c) => c,
                Err(x) => return V::Bad(x),
            };
            ckpt::fire(1 + cx.r.u64() % 50);
            co = match resume(&ci, ckpt::IMG, &o) {
                Ok(x) => x,
                Err(x) => return V::Bad(x),
            };
            if parts > 4 {
                o.cr = false;
            }
        }
        ckpt::never();
        drop(q);
        if let Some(d) = diff_out(&e.outs[i], &co) {
            return V::Bad(d);
        }
        let tag = format!("call {} of {}, events {:?}, resources {:?}, {} checkpoint(s)", i, c.name, ev, rs, parts - 1);
        cx.add("trace lines read", lines.len() as u64);
        if parts > 1 {
            cx.add("traces of interrupted runs", 1);
        }
        cx.add("operands looked up in traced registers", HELD.with(|h| h.replace(0)));
        if mode == 1 {
            let want: RefTrace = rt.iter().filter(|x| classes.iter().any(|k| class_of_ref(&x.0).contains(&k.to_lowercase().as_str()))).cloned().collect();
            for l in &lines {
                if !class(&l.name).iter().any(|k| classes.iter().any(|z| z.to_lowercase() == *k)) {
                    return V::Bad(format!("{}: the trace lists {}", tag, l.name));
                }
            }
            // direct calls of WASI functions are an instruction of their own
            let want: RefTrace = want.into_iter().filter(|x| x.0 != "callhost").collect();
            if let Some(d) = check_trace(&want, &lines) {
                return V::Bad(format!("{}: {}", tag, d));
            }
            continue;
        }
        if let Some(d) = check_trace(&rt, &lines) {
            return V::Bad(format!("{}: {}", tag, d));
        }
        let has = |k: &str| rs.iter().any(|x| x.to_lowercase() == k);
        for l in &lines {
            if l.pc != has("pc") || l.regs.is_some() != has("regs") || l.locals.is_some() != has("locals") || l.globals.is_some() != has("globals") {
                return V::Bad(format!("{}: a trace line shows other resources: {:?}", tag, l));
            }
        }
        if o.stats {
            if let Some(d) = check_stats(&lines) {
                return V::Bad(format!("{}: {}", tag, d));
            }
            cx.add("statistics reports compared", 1);
        }
    }
    V::Ok
}
fn class_of_ref(n: &str) -> Vec<&'static str> {
    let mut v = vec![];
    if n.len() > 3 && n[3..].starts_with("load") {
        v.push("load");
    }
    if n.len() > 3 && n[3..].starts_with("store") {
        v.push("store");
    }
    if n == "call" || n == "callindirect" {
        v.push("call");
    }
    if n == "br" || n == "brif" || n == "brtable" {
        v.push("branch");
    }
    v
}
