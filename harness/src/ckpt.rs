//! Checkpoint and restore: interrupted runs against the uninterrupted reference.
use crate::chk::*;
use crate::exec::*;
use crate::gen::*;
use crate::host;
use crate::hostmodel::HostModel;
use crate::refi::*;
use chiwawa::execution::migration::verif::{FIRE_AT, POLLS};
use std::sync::atomic::Ordering::Relaxed;

pub const IMG: &str = "./checkpoint.bin";
pub fn fire(n: u64) {
    POLLS.store(0, Relaxed);
    FIRE_AT.store(n, Relaxed);
}
pub fn never() {
    fire(u64::MAX);
}
pub fn natural() {
    fire(0);
}
pub fn polls() -> u64 {
    POLLS.load(Relaxed)
}
pub const CR: RunOpt = RunOpt { stats: false, cr: true, trace: None };

pub struct Ran {
    pub ckpts: u64,
    pub polls: u64,
}
/// Executes the calls; the call number `ck` runs with checkpointing and is interrupted whenever
/// `next(step, polls so far)` says so (None = run on). Compares everything with the reference.
pub fn interrupted(wasm: &[u8], calls: &[Call], h: &HostModel, e: &Expect, ck: usize, next: &mut dyn FnMut(u64) -> Option<u64>, o: &RunOpt) -> Result<Ran, String> {
    host::reset(h.clone());
    let argv = argv_of(h);
    let mut ci = load(wasm, &argv)?;
    let mut ran = Ran { ckpts: 0, polls: 0 };
    for (i, (c, ro)) in calls.iter().zip(&e.outs).enumerate() {
        let co = if i != ck {
            call(&ci, &c.name, &c.args, &RunOpt { cr: false, ..o.clone() })
        } else {
            let _ = std::fs::remove_file(IMG);
            fire(next(0).unwrap_or(u64::MAX));
            let mut co = call(&ci, &c.name, &c.args, o);
            ran.polls += polls();
            let mut step = 0;
            while co == COut::Ckpt {
                step += 1;
                ran.ckpts += 1;
                if !std::path::Path::new(IMG).exists() {
                    return Err("a checkpoint was reported but no image was written".into());
                }
                let inst = parse(wasm).and_then(|m| instantiate(m, Default::default(), argv.clone()));
                ci = inst.map_err(|x| format!("the module no longer loads: {}", x))?;
                fire(next(step).unwrap_or(u64::MAX));
                co = match resume(&ci, IMG, o) {
                    Ok(x) => x,
                    Err(x) => return Err(format!("checkpoint {} is not restored: {}", step, x)),
                };
                ran.polls += polls();
            }
            co
        };
        if let Some(d) = diff_out(ro, &co) {
            return Err(format!("call {} of {}({}) after {} checkpoint(s): {}", i, c.name, args_text(c), ran.ckpts, d));
        }
        if matches!(co, COut::Trap(_)) {
            break;
        }
    }
    never();
    if let Some(b) = host::ctx().bad.first() {
        return Err(b.clone());
    }
    if let Some(d) = diff_state(&e.view, &state(&ci)) {
        return Err(format!("after {} checkpoint(s): {}", ran.ckpts, d));
    }
    if let Some(d) = diff_log(&e.log, &host::ctx().model.log) {
        return Err(format!("after {} checkpoint(s): {}", ran.ckpts, d));
    }
    Ok(ran)
}
/// reference run, or why there is none
pub fn reference(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64) -> Result<Expect, V> {
    cx.case(wasm, cut(&format!("{:?} host seed {}", calls, h.seed), 20000));
    let m = match RModule::decode(wasm) {
        Ok(m) => m,
        Err(e) => return Err(V::Bad(format!("harness: reference cannot decode the module: {}", e))),
    };
    OPS.with(|x| x.set(cx.collect_ops));
    let e = expect_m(&m, calls, h, fuel, true);
    if e.discard() || e.outs.is_empty() {
        return Err(V::Discard);
    }
    cx.observe(&e);
    Ok(e)
}
/// one checkpoint at each of many instruction boundaries
pub fn single(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64, points: usize) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match reference(cx, wasm, calls, h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    let ck = cx.r.below(e.outs.len());
    let n = match interrupted(wasm, calls, h, &e, ck, &mut |_| None, &CR) {
        Ok(r) => r.polls,
        Err(d) => return V::Bad(format!("without any checkpoint: {}", d)),
    };
    if n == 0 {
        return V::Discard;
    }
    cx.add("checkpoint polls seen", n);
    let pts: Vec<u64> = if n <= points as u64 {
        (1..=n).collect()
    } else {
        let mut v = vec![1, n];
        while v.len() < points {
            v.push(1 + cx.r.u64() % n);
        }
        v
    };
    for p in pts {
        let r = interrupted(wasm, calls, h, &e, ck, &mut |s| if s == 0 { Some(p) } else { None }, &CR);
        match r {
            Ok(r) => {
                if r.ckpts != 1 {
                    return V::Bad(format!("checkpoint requested at poll {} of {}: {} checkpoints taken", p, n, r.ckpts));
                }
                cx.add("checkpoints taken and resumed", 1);
                let hh = fnv(&cx.wasm, p);
                cx.cov.distinct.insert(hh);
            }
            Err(d) => return V::Bad(format!("checkpoint at poll {} of {}: {}", p, n, d)),
        }
    }
    V::Ok
}
/// chains of checkpoints with gaps drawn from `gap`
thread_local!(
    /// longest chain of checkpoints; families of large modules lower it
    pub static CHAIN: std::cell::Cell<u64> = const { std::cell::Cell::new(40) }
);
pub fn chain(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64, reps: usize) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match reference(cx, wasm, calls, h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    let ck = cx.r.below(e.outs.len());
    let n = match interrupted(wasm, calls, h, &e, ck, &mut |_| None, &CR) {
        Ok(r) => r.polls,
        Err(d) => return V::Bad(format!("without any checkpoint: {}", d)),
    };
    if n < 2 {
        return V::Discard;
    }
    for _ in 0..reps {
        let mode = cx.r.below(4);
        let seed = cx.r.u64();
        let max = CHAIN.with(|c| c.get());
        let mut rr = crate::rng::Rng::new(seed);
        let mut gaps = vec![];
        let mut f = |s: u64| {
            if s > max {
                return None;
            }
            let g = match mode {
                0 => 2,
                1 => 2 + rr.u64() % 6,
                2 => 2 + rr.u64() % (n / 3 + 2),
                _ => 2 + rr.u64() % (n / 8 + 2),
            };
            gaps.push(g);
            Some(g)
        };
        let r = interrupted(wasm, calls, h, &e, ck, &mut f, &CR);
        match r {
            Ok(r) => {
                cx.add("checkpoints taken and resumed", r.ckpts);
                if r.ckpts > 1 {
                    cx.add("chains of two or more checkpoints", 1);
                }
                let hh = fnv(&cx.wasm, seed);
                cx.cov.distinct.insert(hh);
                if r.ckpts == 0 && gaps[0] <= n {
                    return V::Bad(format!("checkpoint requested at poll {} of {} was not taken", gaps[0], n));
                }
            }
            Err(d) => return V::Bad(format!("checkpoints after {:?} polls: {}", cut(&format!("{:?}", gaps), 200), d)),
        }
    }
    V::Ok
}

fn listing() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(".").map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default();
    v.sort();
    v
}
/// C18: checkpointing enabled without a request, and disabled with one
pub fn invisible(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match reference(cx, wasm, calls, h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    natural();
    let _ = std::fs::remove_file(IMG);
    let _ = std::fs::remove_file(host::TRIGGER);
    let _ = std::fs::write("./guest.wasm", wasm);
    let before = listing();
    // enabled, never asked
    if let Some(d) = check_run(wasm, calls, h, &e, true, &CR) {
        return V::Bad(format!("checkpointing enabled, no request: {}", d));
    }
    let p = polls();
    if listing() != before {
        return V::Bad(format!("checkpointing enabled, no request: files {:?} became {:?}", before, listing()));
    }
    // disabled, asked
    let _ = std::fs::write(host::TRIGGER, b"");
    host::ctx().real_file = true;
    let before = listing();
    let off = RunOpt::default();
    fire(0);
    let r = check_run(wasm, calls, h, &e, true, &off);
    let gone = !std::path::Path::new(host::TRIGGER).exists();
    let after = listing();
    let _ = std::fs::remove_file(host::TRIGGER);
    let _ = std::fs::remove_file(IMG);
    if let Some(d) = r {
        return V::Bad(format!("checkpointing disabled, trigger file present: {}", d));
    }
    if gone {
        return V::Bad("checkpointing disabled: the trigger file was removed".into());
    }
    if after != before {
        return V::Bad(format!("checkpointing disabled, trigger file present: files {:?} became {:?}", before, after));
    }
    cx.add("polls without a request", p);
    cx.add("polls while disabled", polls());
    V::Ok
}
/// a genuine image of a running program, or None
pub fn image_of(wasm: &[u8], calls: &[Call], h: &HostModel, ck: usize, at: u64) -> Option<Vec<u8>> {
    image_with(wasm, calls, h, ck, at, &CR)
}
pub fn image_with(wasm: &[u8], calls: &[Call], h: &HostModel, ck: usize, at: u64, o: &RunOpt) -> Option<Vec<u8>> {
    host::reset(h.clone());
    let ci = load(wasm, &argv_of(h)).ok()?;
    let _ = std::fs::remove_file(IMG);
    for (i, c) in calls.iter().enumerate() {
        if i == ck {
            fire(at);
            let co = call(&ci, &c.name, &c.args, o);
            never();
            return if co == COut::Ckpt { std::fs::read(IMG).ok() } else { None };
        }
        if matches!(call(&ci, &c.name, &c.args, &RunOpt::default()), COut::Trap(_)) {
            return None;
        }
    }
    None
}
fn peak_kb() -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    s.lines().find(|l| l.starts_with("VmPeak")).and_then(|l| l.split_whitespace().nth(1)).and_then(|x| x.parse().ok()).unwrap_or(0)
}
/// C19: damaged and foreign images
pub fn damaged(cx: &mut Cx) -> V {
    let p = Prof { stmts: (1, 4), refs: cx.r.chance(1, 2), s_host: 6, ..base() };
    let mut pr = program(&mut cx.r, &p);
    if let Some(w) = cx.puffed(&pr.wasm) {
        pr.wasm = w;
    }
    let h = HostModel::new(pr.host_seed);
    let e = match reference(cx, &pr.wasm, &pr.calls, &h, 8000) {
        Ok(e) => e,
        Err(v) => return v,
    };
    let ck = cx.r.below(e.outs.len());
    let at = 1 + cx.r.u64() % 40;
    let img = match image_of(&pr.wasm, &pr.calls, &h, ck, at) {
        Some(i) => i,
        None => return V::Discard,
    };
    // the genuine image is accepted (so refusal means something)
    {
        let ci = match load(&pr.wasm, &[]) {
            Ok(c) => c,
            Err(x) => return V::Bad(x),
        };
        if let Err(x) = guarded(|| chiwawa::execution::migration::restore(ci.inst.clone(), IMG).map(|_| ()).map_err(|e| format!("{:?}", e))).and_then(|x| x) {
            return V::Bad(format!("the intact image is refused: {}", x));
        }
    }
    let other = program(&mut cx.r, &p);
    let n = img.len();
    let tries = if cx.thorough { 60 } else { 24 };
    for t in 0..tries {
        let mut bad = img.clone();
        let mut wasm: &[u8] = &pr.wasm;
        let tweaked;
        let what: String;
        match t % 12 {
            0 => {
                let k = cx.r.below(n);
                bad.truncate(k);
                what = format!("truncated to {} of {} bytes", k, n);
            }
            1 => {
                let k = n - 1 - cx.r.below(n.min(40));
                bad.truncate(k);
                what = format!("truncated to {} of {} bytes", k, n);
            }
            2 => {
                let k = cx.r.below(n.min(64));
                bad.truncate(k);
                what = format!("truncated to {} bytes", k);
            }
            3 | 4 => {
                let k = if t % 12 == 3 { cx.r.below(n) } else { cx.r.below(n.min(200)) };
                let b = cx.r.below(8);
                bad[k] ^= 1 << b;
                what = format!("bit {} of byte {} flipped", b, k);
            }
            5 => {
                let k = cx.r.below(n);
                let l = (1 + cx.r.below(64)).min(n - k);
                let mut ch = false;
                for x in &mut bad[k..k + l] {
                    let v = cx.r.u32() as u8;
                    ch |= *x != v;
                    *x = v;
                }
                if !ch {
                    continue;
                }
                what = format!("bytes {}..{} overwritten", k, k + l);
            }
            6 => {
                let l = cx.r.below(300);
                bad = (0..l).map(|_| cx.r.u32() as u8).collect();
                what = format!("{} random bytes", l);
            }
            7 => {
                bad = vec![];
                what = "empty file".into();
            }
            8 => {
                wasm = &other.wasm;
                if other.wasm == pr.wasm {
                    continue;
                }
                what = "image of another module".into();
            }
            9 => {
                // almost the same module: one constant byte of code differs
                match tweak(cx, &pr.wasm) {
                    Some(w) => tweaked = w,
                    None => continue,
                }
                wasm = &tweaked;
                what = "image of an almost identical module".into();
            }
            10 => {
                let k = cx.r.below(n);
                let l = 1 + cx.r.below(16.min(n - k));
                bad.drain(k..k + l);
                what = format!("bytes {}..{} missing", k, k + l);
            }
            _ => {
                // two halves swapped or extended
                let l = 1 + cx.r.below(50);
                for _ in 0..l {
                    bad.push(cx.r.u32() as u8);
                }
                what = format!("{} bytes appended", l);
            }
        }
        host::reset(h.clone());
        let missing = t == tries - 1;
        if missing {
            let _ = std::fs::remove_file(IMG);
        } else if std::fs::write(IMG, &bad).is_err() {
            return V::Discard;
        }
        let ci = match load(wasm, &[]) {
            Ok(c) => c,
            Err(_) => continue, // the tweaked module may be invalid
        };
        let s0 = state(&ci);
        let m0 = peak_kb();
        let t0 = std::time::Instant::now();
        cx.add("bad images offered", 1);
        let what = if missing { "missing file".to_string() } else { what };
        match guarded(|| chiwawa::execution::migration::restore(ci.inst.clone(), IMG).map(|_| ()).map_err(|e| format!("{:?}", e))) {
            Ok(Err(_)) => {}
            Ok(Ok(())) => return V::Bad(format!("{}: the image was accepted", what)),
            Err(p) => return V::Bad(format!("{}: {}", what, p)),
        }
        if t0.elapsed().as_secs() > 20 {
            return V::Bad(format!("{}: refusing it took {:?}", what, t0.elapsed()));
        }
        let m1 = peak_kb();
        if m1 > m0 + 600_000 {
            return V::Bad(format!("{}: refusing it took {} MB", what, (m1 - m0) / 1024));
        }
        if !host::ctx().model.log.is_empty() {
            return V::Bad(format!("{}: host calls were made", what));
        }
        if state(&ci) != s0 {
            return V::Bad(format!("{}: the instance was changed although the image was refused", what));
        }
        let hh = fnv(&bad, fnv(what.as_bytes(), 1));
        cx.cov.distinct.insert(hh);
    }
    let _ = std::fs::remove_file(IMG);
    V::Ok
}
/// change the operand of one constant (same length), keeping the module valid
fn tweak(cx: &mut Cx, wasm: &[u8]) -> Option<Vec<u8>> {
    let mut spots = vec![];
    for p in wasmparser::Parser::new(0).parse_all(wasm) {
        if let Ok(wasmparser::Payload::CodeSectionEntry(b)) = p {
            let mut r = b.get_operators_reader().ok()?;
            while !r.eof() {
                let pos = r.original_position();
                let op = r.read().ok()?;
                if matches!(op, wasmparser::Operator::F64Const { .. } | wasmparser::Operator::F32Const { .. } | wasmparser::Operator::I32Const { .. }) {
                    spots.push(pos + 1);
                }
            }
        }
    }
    if spots.is_empty() {
        return None;
    }
    let k = *cx.r.pick(&spots);
    let mut w = wasm.to_vec();
    w[k] ^= 1;
    Some(w)
}
/// C28, writing side: an image and what the host has seen so far
pub fn xwrite(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64, dir: &str) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match reference(cx, wasm, calls, h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    let ck = e.outs.len() - 1;
    let n = match interrupted(wasm, calls, h, &e, ck, &mut |_| None, &CR) {
        Ok(r) => r.polls,
        Err(d) => return V::Bad(format!("without any checkpoint: {}", d)),
    };
    if n == 0 {
        return V::Discard;
    }
    for k in 0..3u64 {
        let at = if k == 0 { 1 + cx.r.u64() % n.min(8) } else { 1 + cx.r.u64() % n };
        match image_of(wasm, calls, h, ck, at) {
            Some(img) => {
                let log = &host::ctx().model.log;
                if log.len() > e.log.len() || diff_log(&e.log[..log.len()], log).is_some() {
                    return V::Bad("host calls before the checkpoint differ".into());
                }
                let seen = host::ctx().model.calls;
                let base = format!("{}/{}-{}-{}", dir, cx.fam, cx.idx, k);
                let _ = std::fs::write(format!("{}.img", base), &img);
                let _ = std::fs::write(format!("{}.host", base), format!("{} {}", seen, log.len()));
                cx.add("images written", 1);
            }
            None => return V::Bad(format!("no image at poll {} of {}", at, n)),
        }
    }
    V::Ok
}
pub fn xread(cx: &mut Cx, wasm: &[u8], calls: &[Call], h: &HostModel, fuel: u64, dir: &str) -> V {
    let puffed = cx.puffed(wasm);
    let wasm = puffed.as_deref().unwrap_or(wasm);
    let e = match reference(cx, wasm, calls, h, fuel) {
        Ok(e) => e,
        Err(v) => return v,
    };
    let mut any = false;
    for k in 0..3u64 {
        let base = format!("{}/{}-{}-{}", dir, cx.fam, cx.idx, k);
        let seen = match std::fs::read_to_string(format!("{}.host", base)) {
            Ok(s) => s,
            Err(_) => continue,
        };
        any = true;
        let (a, b) = seen.split_once(' ').unwrap();
        let (calls_seen, log_seen): (u64, usize) = (a.parse().unwrap(), b.parse().unwrap());
        let mut hh = h.clone();
        hh.calls = calls_seen;
        host::reset(hh);
        let ci = match load(wasm, &argv_of(h)) {
            Ok(c) => c,
            Err(x) => return V::Bad(x),
        };
        never();
        let co = match resume(&ci, &format!("{}.img", base), &CR) {
            Ok(c) => c,
            Err(x) => return V::Bad(format!("the image of the other build is refused: {}", x)),
        };
        cx.add("images of the other build resumed", 1);
        if let Some(d) = diff_out(e.outs.last().unwrap(), &co) {
            return V::Bad(format!("resumed in the other build: {}", d));
        }
        if let Some(d) = diff_state(&e.view, &state(&ci)) {
            return V::Bad(format!("resumed in the other build: {}", d));
        }
        if let Some(d) = diff_log(&e.log[log_seen..], &host::ctx().model.log) {
            return V::Bad(format!("resumed in the other build: {}", d));
        }
    }
    if any {
        V::Ok
    } else {
        V::Discard
    }
}
