//! Check driver: families of deterministic cases, monitored and counted.
use crate::exec::*;
use crate::gen::Call;
use crate::host;
use crate::hostmodel::HostModel;
use crate::refi::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, HashSet};
use std::os::unix::fs::FileExt;

pub enum V {
    Ok,
    Discard,
    Bad(String),
}
#[derive(Default)]
pub struct Cov {
    pub evals: u64,
    pub discards: u64,
    pub nontrivial: u64,
    pub ops: BTreeMap<String, u64>,
    pub n: BTreeMap<&'static str, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fams: BTreeMap<&'static str, (u64, u64)>,
}
pub struct Cx {
    pub r: Rng,
    pub seed: u64,
    pub idx: u64,
    pub thorough: bool,
    pub cov: Cov,
    pub wasm: Vec<u8>,
    pub desc: String,
    pub collect_ops: bool,
    /// operator names that make a case non-trivial (empty: every case with executed instructions)
    pub relevant: &'static [&'static str],
    pub digests: Option<Vec<(String, u64, u64)>>,
    pub dig: u64,
    pub fam: &'static str,
}
impl Cx {
    pub fn bare(seed: u64) -> Cx {
        let r = Rng::new(seed);
        Cx { r, seed, idx: 0, thorough: false, cov: Cov::default(), wasm: vec![], desc: String::new(), collect_ops: false, relevant: &[], digests: None, dig: 0, fam: "" }
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.cov.n.entry(k).or_insert(0) += n;
    }
    /// the same module with larger indices everywhere, now and then
    pub fn puffed(&mut self, wasm: &[u8]) -> Option<Vec<u8>> {
        let (w, s) = crate::puff::some(wasm, 8)?;
        self.add("modules with unused entities in front of the used ones", 1);
        if s.types.max(s.funcs).max(s.globals).max(s.datas).max(s.locals).max(s.depth) > 255 {
            self.add("of these with indices beyond 255", 1);
        }
        Some(w)
    }
    pub fn case(&mut self, wasm: &[u8], desc: String) {
        self.wasm.clear();
        self.wasm.extend_from_slice(wasm);
        self.desc = desc;
    }
    pub fn nontrivial(&mut self, h: u64) {
        self.cov.nontrivial += 1;
        self.cov.distinct.insert(h);
    }
    pub fn observe(&mut self, e: &Expect) {
        self.add("wasm instructions executed (reference count)", e.used);
        self.add("calls", e.calls);
        self.add("branches", e.branches);
        self.add("host calls", e.log.len() as u64);
        if e.trapped() {
            self.add("runs that trap", 1);
        }
        let mut hit = self.relevant.is_empty() && e.used > 0;
        for (k, n) in &e.ops_seen {
            if !hit && self.relevant.iter().any(|x| k.starts_with(x)) {
                hit = true;
            }
            *self.cov.ops.entry(k.clone()).or_insert(0) += n;
        }
        if hit {
            let h = fnv(&self.wasm, fnv(self.desc.as_bytes(), 7));
            self.nontrivial(h);
        }
        if self.cov.samples.len() < 3 {
            let s = format!("{}#{}: {} bytes of wasm, calls {}, {} instructions, outcome {:?}", self.fam, self.idx, self.wasm.len(), cut(&self.desc, 300), e.used, e.outs.last().map(|o| cut(&format!("{:?}", o), 200)));
            self.cov.samples.push(s);
        }
    }
}
pub fn cut(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}...", &s[..k])
    }
}
pub fn fnv(b: &[u8], h0: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ h0;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}
pub type CaseFn = fn(&mut Cx) -> V;
pub struct Fam {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// the same cases in every build (otherwise each build gets its own)
    pub fixed: bool,
}
pub fn fam(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Fam {
    Fam { name, quick, thorough, f, fixed: false }
}
pub fn fixed(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Fam {
    Fam { name, quick, thorough, f, fixed: true }
}

/// Reference and chiwawa run the same calls on one instance; every result, trap, and the final state
/// and host log are compared. With `stop`, the first trap ends the run; otherwise the calls go on.
pub fn compare(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64, stop: bool, o: &RunOpt) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    cx.case(wasm, cut(&format!("{:?} host seed {}", calls, h.seed), 20000));
    let m = match RModule::decode(wasm) {
        Ok(m) => m,
        Err(e) => return V::Bad(format!("harness: reference cannot decode the module: {}", e)),
    };
    OPS.with(|x| x.set(cx.collect_ops));
    let e = expect_m(&m, calls, h, fuel, stop);
    if e.discard() {
        return V::Discard;
    }
    cx.observe(&e);
    match check_run(wasm, calls, h, &e, stop, o) {
        None => {
            cx.add("results compared", e.outs.len() as u64);
            V::Ok
        }
        Some(d) => V::Bad(d),
    }
}
pub fn expect_m(m: &RModule, calls: &[Call], host: &HostModel, fuel: u64, stop: bool) -> Expect {
    let mut h = host.clone();
    let (mut ri, mut ires) = RefInst::new(m, &mut h);
    ri.fuel = fuel;
    ri.max_depth = DEPTH.with(|d| d.get());
    ri.tick = TICK.with(|t| t.get());
    if OPS.with(|o| o.get()) {
        ri.ops_seen = Some(Default::default());
    }
    let mut outs = vec![];
    let mut start = None;
    if ires.is_ok() {
        start = ri.run_start();
        match &start {
            None | Some(Out::Ok(_)) => {}
            Some(Out::Trap(t)) => ires = Err(format!("start function traps: {:?}", t)),
            Some(x) => {
                outs.push(x.clone());
                ires = Err("start".into())
            }
        }
    }
    if ires.is_ok() {
        for c in calls {
            let args: Vec<RV> = c.args.iter().map(|a| rval(a.0, a.1)).collect();
            let f = m.export_func(&c.name).expect("export");
            let o = ri.invoke(f, &args);
            let end = match &o {
                Out::Ok(_) => false,
                Out::Trap(_) => stop,
                _ => true,
            };
            outs.push(o);
            if end {
                break;
            }
        }
    }
    let view = ri.view();
    let (used, calls, branches, depth) = (ri.used, ri.calls, ri.branches, ri.seen_depth);
    let ops_seen = ri.ops_list();
    let (tick_used, host_used) = (std::mem::take(&mut ri.tick_used), std::mem::take(&mut ri.host_used));
    drop(ri);
    Expect { outs, view, log: h.log, used, ops: used, calls, branches, depth: depth as u32, ops_seen, inst: ires, started: start.is_some(), tick_used, host_used }
}
pub fn check_run(wasm: &[u8], calls: &[Call], host: &HostModel, e: &Expect, stop: bool, o: &RunOpt) -> Option<String> {
    host::reset(host.clone());
    let ci = match load(wasm, &argv_of(host)) {
        Ok(c) => c,
        Err(x) => {
            return if e.inst.is_err() && !e.started {
                if host::ctx().model.log.is_empty() {
                    None
                } else {
                    Some("a module that fails to instantiate made host calls".into())
                }
            } else {
                Some(format!("a valid module was not instantiated: {}", x))
            };
        }
    };
    if e.inst.is_err() && !e.started {
        return Some(format!("instantiation must fail ({:?}), chiwawa instantiated the module", e.inst));
    }
    if e.started {
        match (start(&ci), &e.inst) {
            (Ok(()), Ok(())) => {}
            (Err(_), Err(_)) => {
                return diff_state(&e.view, &state(&ci)).or_else(|| diff_log(&e.log, &host::ctx().model.log));
            }
            (a, b) => return Some(format!("start function: specification {:?}, chiwawa {:?}", b, a)),
        }
    }
    for (i, (c, ro)) in calls.iter().zip(&e.outs).enumerate() {
        let co = call(&ci, &c.name, &c.args, o);
        if let Some(d) = diff_out(ro, &co) {
            return Some(format!("call {} of {}({}): {}", i, c.name, args_text(c), d));
        }
        if stop && matches!(co, COut::Trap(_)) {
            break;
        }
    }
    if let Some(b) = host::ctx().bad.first() {
        return Some(b.clone());
    }
    if let Some(d) = diff_state(&e.view, &state(&ci)) {
        return Some(d);
    }
    diff_log(&e.log, &host::ctx().model.log)
}
/// digest of one outcome; panics carry source positions, so only their kind counts
pub fn dig_out(h: u64, c: &COut) -> u64 {
    let t = match c {
        COut::Trap(t) if t.starts_with("panic") => "panic".to_string(),
        COut::Ok(v) => format!("{:?}", v.iter().map(canon).collect::<Vec<_>>()),
        x => format!("{:?}", x),
    };
    fnv(t.as_bytes(), h)
}
/// NaN payloads are left open by the specification
fn canon(v: &CV) -> CV {
    match v {
        CV::F32(b) if f32::from_bits(*b).is_nan() => CV::F32(0x7fc00000),
        CV::F64(b) if f64::from_bits(*b).is_nan() => CV::F64(0x7ff8000000000000),
        x => x.clone(),
    }
}
/// `open`: memory bytes that hold NaN payloads
pub fn dig_state<'a>(mut h: u64, s: &State, open: impl Iterator<Item = &'a u32>) -> u64 {
    if let Some(m) = &s.mem {
        let mut m = m.clone();
        for i in open {
            if let Some(b) = m.get_mut(*i as usize) {
                *b = 0;
            }
        }
        h = fnv(&m, h);
    }
    h = fnv(format!("{:?}{:?}", s.globals.iter().map(canon).collect::<Vec<_>>(), s.tables).as_bytes(), h);
    for e in &host::ctx().model.log {
        h = fnv(format!("{:?}", e).as_bytes(), h);
    }
    h
}
pub fn args_text(c: &Call) -> String {
    c.args.iter().map(|(t, b)| format!("{:?} {:#x}", t, b)).collect::<Vec<_>>().join(", ")
}

// ---------------------------------------------------------------- worker
extern "C" fn on_alarm(_: i32) {
    unsafe { libc::_exit(97) }
}
#[repr(C)]
struct ITimer {
    interval: [i64; 2],
    value: [i64; 2],
}
extern "C" {
    fn setitimer(which: i32, new: *const ITimer, old: *mut ITimer) -> i32;
}
fn arm(secs: i64) {
    let t = ITimer { interval: [0, 0], value: [secs, 0] };
    #[cfg(not(miri))]
    unsafe {
        setitimer(2, &t, std::ptr::null_mut());
    }
}
fn esc(s: &str) -> serde_json::Value {
    serde_json::Value::String(s.to_string())
}
pub struct Args {
    pub prop: String,
    pub seed: u64,
    pub part: (u64, u64),
    pub build: u64,
    pub thorough: bool,
    pub out: String,
    pub cap: f64,
    pub only: Option<(String, u64)>,
    pub scale: f64,
    pub digests: bool,
}
pub fn run_case(cx: &mut Cx, f: &Fam, seed: u64, build: u64, idx: u64) -> V {
    let b = if f.fixed { 0 } else { build };
    let fh = fnv(f.name.as_bytes(), 3);
    cx.r = Rng::new(mix(seed ^ mix(fh ^ mix(idx ^ (b << 48)))));
    cx.idx = idx;
    cx.fam = f.name;
    match guarded(|| (f.f)(cx)) {
        Ok(v) => v,
        Err(p) => V::Bad(format!("panic while checking: {}", p)),
    }
}
pub fn worker(a: Args, fams: Vec<Fam>, relevant: &'static [&'static str]) -> i32 {
    let t0 = std::time::Instant::now();
    #[cfg(not(miri))]
    unsafe {
        libc::signal(libc::SIGPROF, on_alarm as *const () as usize);
    }
    let cur = std::fs::File::create(format!("{}.cur", a.out)).unwrap();
    let mut cx = Cx {
        r: Rng::new(0),
        seed: a.seed,
        idx: 0,
        thorough: a.thorough,
        cov: Cov::default(),
        wasm: vec![],
        desc: String::new(),
        collect_ops: true,
        relevant,
        digests: if a.digests { Some(vec![]) } else { None },
        dig: 0,
        fam: "",
    };
    let mut viol = vec![];
    let mut capped = false;
    let mut planned = 0u64;
    'all: for f in &fams {
        if let Some((n, _)) = &a.only {
            if n != f.name {
                continue;
            }
        }
        let n = ((if a.thorough { f.thorough } else { f.quick }) as f64 * a.scale).ceil() as u64;
        let n = if f.fixed && !a.thorough { f.quick } else { n };
        let (lo, hi, step) = match &a.only {
            Some((_, i)) => (*i, *i + 1, 1),
            None => (a.part.0, n, a.part.1),
        };
        let mut i = lo;
        while i < hi {
            planned += 1;
            if t0.elapsed().as_secs_f64() > a.cap {
                capped = true;
                i += step;
                continue;
            }
            let tag = format!("{:<24}{:>20}\n", f.name, i);
            let _ = cur.write_at(tag.as_bytes(), 0);
            arm(if a.only.is_some() { 120 } else { 40 });
            cx.dig = 0;
            let v = run_case(&mut cx, f, a.seed, a.build, i);
            cx.cov.evals += 1;
            let e = cx.cov.fams.entry(f.name).or_insert((0, 0));
            e.0 += 1;
            if let Some(d) = &mut cx.digests {
                let code = match &v {
                    V::Discard => 1,
                    _ => cx.dig,
                };
                d.push((f.name.to_string(), i, code));
            }
            if a.only.is_some() {
                let _ = std::fs::write(format!("{}.case.wasm", a.out), &cx.wasm);
                let _ = std::fs::write(format!("{}.case.txt", a.out), &cx.desc);
            }
            match v {
                V::Ok => {}
                V::Discard => {
                    cx.cov.discards += 1;
                    e.1 += 1;
                }
                V::Bad(d) => {
                    let base = format!("{}.{}-{}", a.out, f.name, i);
                    let _ = std::fs::write(format!("{}.wasm", base), &cx.wasm);
                    let _ = std::fs::write(format!("{}.txt", base), format!("{}\n\n{}\n", d, cx.desc));
                    viol.push(serde_json::json!({"family": f.name, "idx": i, "what": cut(&d, 1500), "desc": cut(&cx.desc, 1500), "wasm": format!("{}.wasm", base)}));
                    if viol.len() >= 3 {
                        break 'all;
                    }
                }
            }
            i += step;
        }
    }
    arm(0);
    let c = &cx.cov;
    let j = serde_json::json!({
        "prop": a.prop, "evals": c.evals, "discards": c.discards, "nontrivial": c.nontrivial,
        "distinct": c.distinct.iter().map(|x| format!("{:x}", x)).collect::<Vec<_>>(),
        "ops": c.ops, "n": c.n, "samples": c.samples.iter().map(|s| esc(s)).collect::<Vec<_>>(),
        "fams": c.fams.iter().map(|(k, v)| (k.to_string(), serde_json::json!([v.0, v.1]))).collect::<serde_json::Map<_, _>>(),
        "violations": viol, "capped": capped, "planned": planned, "wall": t0.elapsed().as_secs_f64(),
        "digests": cx.digests.as_ref().map(|d| d.iter().map(|x| serde_json::json!([x.0, x.1, format!("{:x}", x.2)])).collect::<Vec<_>>()),
    });
    std::fs::write(&a.out, serde_json::to_string(&j).unwrap()).unwrap();
    if viol.is_empty() {
        0
    } else {
        1
    }
}
