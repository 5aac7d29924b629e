//! WASI calls: every supported function through wrappers of several shapes, with valid and hostile
//! arguments, against the recording host.
use crate::chk::*;
use crate::exec::*;
use crate::gen::*;
use crate::hostmodel::*;
use crate::mb::*;
use crate::rng::Rng;
use wasm_encoder::Instruction as I;
use wasm_encoder::BlockType;

pub const EXTRA: &[&str] = &["args_sizes_get", "args_get", "environ_sizes_get", "environ_get", "poll_oneoff"];
pub fn names() -> Vec<&'static str> {
    SPECS.iter().map(|x| x.0).chain(EXTRA.iter().copied()).collect()
}
pub fn sig(name: &str) -> (Vec<T>, Vec<T>) {
    let p = guest_params(name).iter().map(|x| if *x { T::I64 } else { T::I32 }).collect();
    (p, if name == "proc_exit" { vec![] } else { vec![T::I32] })
}
/// places areas of guest memory
struct Lay {
    img: Vec<u8>,
    used: Vec<(usize, usize)>,
    /// large counts and lengths
    big: bool,
}
impl Lay {
    fn new(r: &mut Rng, pages: usize) -> Lay {
        let mut img = vec![0u8; pages * 65536];
        // recognisable content in patches, so that stray writes and reads show
        for _ in 0..6 {
            let a = r.below(img.len());
            let n = r.below(3000).min(img.len() - a);
            for b in &mut img[a..a + n] {
                *b = r.u32() as u8;
            }
        }
        Lay { img, used: vec![], big: false }
    }
    /// a free area
    fn area(&mut self, r: &mut Rng, n: usize, align: usize) -> Option<usize> {
        for t in 0..60 {
            let max = self.img.len().checked_sub(n)?;
            let mut a = match r.below(6) {
                0 if t < 5 => max,
                1 if t < 5 => 0,
                2 => max - r.below(64.min(max + 1)),
                _ => r.below(max + 1),
            };
            if align > 1 {
                a -= a % align;
            }
            if self.used.iter().all(|(b, e)| a + n <= *b || a >= *e) {
                self.used.push((a, a + n));
                return Some(a);
            }
        }
        None
    }
    fn put(&mut self, a: usize, d: &[u8]) {
        self.img[a..a + d.len()].copy_from_slice(d);
    }
}
fn align(r: &mut Rng) -> usize {
    *r.pick(&[1, 1, 4, 8])
}
fn len(r: &mut Rng, big: bool) -> usize {
    if big && r.chance(1, 2) {
        return match r.below(4) {
            0 => *r.pick(&[32767, 32768, 65535, 65536, 65537, 131072]),
            1 => r.below(400_000),
            _ => r.below(80_000),
        };
    }
    match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.below(5000),
        3 => *r.pick(&[2, 7, 8, 255, 256, 257, 4095, 4096]),
        _ => r.below(200),
    }
}
fn path(r: &mut Rng, big: bool) -> Vec<u8> {
    if big && r.chance(1, 2) {
        let n = if r.chance(1, 2) { r.below(200_000) } else { *r.pick(&[4096, 32767, 65535, 65536, 65537]) };
        return (0..n).map(|i| if i % 97 == 96 { b'/' } else { b'a' + (r.u32() % 26) as u8 }).collect();
    }
    match r.below(8) {
        0 => b".".to_vec(),
        1 => b"".to_vec(),
        2 => "d\u{e9}p\u{f4}t/\u{65e5}\u{672c}/x".as_bytes().to_vec(),
        3 => {
            let n = r.below(5000);
            (0..n).map(|i| if i % 17 == 16 { b'/' } else { b'a' + (r.u32() % 26) as u8 }).collect()
        }
        4 => {
            let n = r.below(300);
            (0..n).map(|_| 1 + (r.u32() % 255) as u8).collect()
        }
        _ => {
            let n = 1 + r.below(40);
            (0..n).map(|_| *r.pick(b"abcXYZ019._- /")).collect()
        }
    }
}
fn scalar(r: &mut Rng, name: &str, i: usize) -> u64 {
    let v = match r.below(4) {
        0 => r.below(16) as u64,
        1 => r.u32() as u64,
        2 => *r.pick(&[0u64, 1, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff]),
        _ => 1 << r.below(32),
    };
    match narrow(name, i) {
        Some(m) => v & m,
        None => v,
    }
}
fn long(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(1000) as u64,
        1 => r.u64(),
        2 => *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX]),
        3 => 1 << r.below(64),
        _ => !(1u64 << r.below(64)),
    }
}
/// a pointer no valid program would pass
fn wild(r: &mut Rng, ml: u64, n: u64) -> u64 {
    (match r.below(9) {
        0 => ml,
        1 => ml.wrapping_sub(n).wrapping_add(1),
        2 => ml.wrapping_sub(n / 2),
        3 => 0xffff_ffff,
        4 => 0u64.wrapping_sub(n),
        5 => 0x8000_0000,
        6 => 0u64.wrapping_sub(r.below(64) as u64),
        7 => ml + r.below(70000) as u64,
        _ => r.u32() as u64,
    }) & 0xffff_ffff
}
fn wild_len(r: &mut Rng, ml: u64, p: u64) -> u64 {
    (match r.below(8) {
        0 => ml.wrapping_sub(p).wrapping_add(1),
        1 => 0xffff_ffff,
        2 => 0x8000_0000,
        3 => 0u64.wrapping_sub(p),
        4 => 0u64.wrapping_sub(p).wrapping_add(r.below(1000) as u64),
        5 => 0x2000_0000 + r.below(4) as u64,
        6 => ml + r.below(1000) as u64,
        _ => r.u32() as u64,
    }) & 0xffff_ffff
}
struct Args {
    v: Vec<u64>,
    hostile: bool,
}
/// arguments for one call; with `bad` > 0, each pointer or length is hostile with that chance of 256
fn args(r: &mut Rng, name: &str, l: &mut Lay, h: &HostModel, bad: u32) -> Option<Args> {
    let ml = l.img.len() as u64;
    let mut v = vec![];
    let mut hostile = false;
    macro_rules! evil {
        () => {
            r.chance(bad, 256) && {
                hostile = true;
                true
            }
        };
    }
    let buffer = |r: &mut Rng, l: &mut Lay, n: usize, al: usize, hostile: &mut bool| -> Option<(u64, u64)> {
        if r.chance(bad, 256) {
            *hostile = true;
            return Some(match r.below(3) {
                0 => (wild(r, ml, n as u64), n as u64),
                1 => {
                    let a = l.area(r, n.max(1), 1)? as u64;
                    (a, wild_len(r, ml, a))
                }
                _ => {
                    let a = wild(r, ml, n as u64);
                    (a, wild_len(r, ml, a))
                }
            });
        }
        let a = l.area(r, n.max(1), al)?;
        Some((a as u64, n as u64))
    };
    match name {
        "args_sizes_get" | "environ_sizes_get" => {
            for _ in 0..2 {
                { let al = align(r); v.push(if evil!() { wild(r, ml, 4) } else { l.area(r, 4, al)? as u64 }); }
            }
        }
        "args_get" | "environ_get" => {
            let s = if name == "args_get" { &h.argv } else { &h.environ };
            let sz: usize = s.iter().map(|x| x.len() + 1).sum();
            let a = align(r);
            v.push(if evil!() { wild(r, ml, 4 * s.len() as u64) } else { l.area(r, (4 * s.len()).max(1), a)? as u64 });
            v.push(if evil!() { wild(r, ml, sz as u64) } else { l.area(r, sz.max(1), 1)? as u64 });
        }
        "poll_oneoff" => {
            let n = if l.big && r.chance(2, 3) { 1 + r.below(6000) } else { 1 + r.below(8) };
            let a = *r.pick(&[1, 8]);
            v.push(if evil!() { wild(r, ml, 48 * n as u64) } else { l.area(r, 48 * n, a)? as u64 });
            v.push(if evil!() { wild(r, ml, 32 * n as u64) } else { l.area(r, 32 * n, a)? as u64 });
            v.push(if r.chance(bad, 512) {
                hostile = true;
                *r.pick(&[0xffff_ffff, 0x0555_5556, 0x0555_5555, 0x8000_0000, 0x0800_0000, 0x1000_0000, 70000])
            } else {
                n as u64
            });
            { let al = align(r); v.push(if evil!() { wild(r, ml, 4) } else { l.area(r, 4, al)? as u64 }); }
        }
        _ => {
            let (_, sp) = spec(name)?;
            for (k, a) in sp.iter().enumerate() {
                match a {
                    A::S => v.push(scalar(r, name, v.len().min(k + 8))),
                    A::L => v.push(long(r)),
                    A::F(n) => {
                        let al = align(r);
                        v.push(if evil!() { wild(r, ml, *n as u64) } else { l.area(r, *n as usize, al)? as u64 })
                    }
                    A::P => {
                        let p = path(r, l.big);
                        let (a, n) = buffer(r, l, p.len(), 1, &mut hostile)?;
                        if a + p.len() as u64 <= ml && n == p.len() as u64 {
                            l.put(a as usize, &p);
                        } else if a < ml && n < ml && a + n <= ml {
                            // a length that happens to fit: keep NUL bytes out
                            for b in &mut l.img[a as usize..(a + n) as usize] {
                                if *b == 0 {
                                    *b = b'z';
                                }
                            }
                        }
                        v.push(a);
                        v.push(n);
                    }
                    A::B => {
                        // a random_get of no bytes never reaches the host
                        let n = if name == "random_get" { len(r, l.big).max(1) } else { len(r, l.big) };
                        let al = align(r);
                        let (a, n) = buffer(r, l, n, al, &mut hostile)?;
                        v.push(a);
                        v.push(n);
                    }
                    A::I | A::O if l.big && r.chance(2, 3) => {
                        // a long table of short buffers, handed over in shuffled order
                        let c = match r.below(4) {
                            0 => *r.pick(&[255, 256, 1023, 1024, 1025, 4096, 65535, 65536, 65537]),
                            1 => r.below(80_000),
                            _ => r.below(5000),
                        };
                        let mut lens: Vec<u32> = (0..c).map(|_| r.below(6) as u32).collect();
                        if c > 0 && r.chance(1, 2) {
                            let k = r.below(c);
                            lens[k] = r.below(100_000) as u32;
                        }
                        let sum: usize = lens.iter().map(|x| *x as usize).sum();
                        let al = align(r);
                        let t = l.area(r, (8 * c).max(1), al)?;
                        let b = l.area(r, sum.max(1), 1)?;
                        let mut ent = vec![];
                        let mut o = b as u32;
                        for n in lens {
                            ent.push((o, n));
                            o += n;
                        }
                        if r.chance(1, 2) {
                            for i in (1..ent.len()).rev() {
                                ent.swap(i, r.below(i + 1));
                            }
                        }
                        if *a == A::I {
                            for q in &mut l.img[b..b + sum] {
                                *q = r.u32() as u8;
                            }
                        }
                        if c > 0 && r.chance(bad, 512) {
                            hostile = true;
                            let k = r.below(c);
                            ent[k] = (wild(r, ml, 8) as u32, 1 + r.below(300) as u32);
                        }
                        let tab: Vec<u8> = ent.iter().flat_map(|(b, n)| [b.to_le_bytes(), n.to_le_bytes()].concat()).collect();
                        l.put(t, &tab);
                        v.push(t as u64);
                        v.push(c as u64);
                    }
                    A::I | A::O => {
                        let c = if r.chance(1, 12) { r.below(80) } else { r.below(6) };
                        let t = if r.chance(bad, 256) {
                            hostile = true;
                            None
                        } else {
                            let al = align(r);
                            Some(l.area(r, (8 * c).max(1), al)?)
                        };
                        let mut tab = vec![];
                        for _ in 0..c {
                            let n = if c > 10 { len(r, false) % 300 } else { len(r, l.big && c < 4) };
                            let (mut b, mut m) = buffer(r, l, n, 1, &mut hostile)?;
                            if m == 0 && r.chance(1, 2) {
                                b = r.u32() as u64; // the address of an empty buffer does not matter
                            }
                            if *a == A::I && m > 0 && r.chance(1, 4) && bad == 0 {
                                // source buffers may overlap
                                b = r.below(l.img.len() - m as usize) as u64;
                            }
                            if m > 0xffff_ffff {
                                m = 0xffff_ffff;
                            }
                            tab.extend_from_slice(&(b as u32).to_le_bytes());
                            tab.extend_from_slice(&(m as u32).to_le_bytes());
                        }
                        match t {
                            Some(t) => {
                                l.put(t, &tab);
                                v.push(t as u64);
                                v.push(c as u64);
                            }
                            None => {
                                if r.chance(1, 2) {
                                    v.push(wild(r, ml, 8 * c as u64));
                                    v.push(c as u64);
                                } else {
                                    let t = l.area(r, (8 * c).max(1), 1)?;
                                    l.put(t, &tab);
                                    v.push(t as u64);
                                    v.push(*r.pick(&[0x2000_0000, 0x2000_0001, 0x1fff_ffff, 0xffff_ffff, 0x8000_0000, 0x4000_0000, 70000, (ml - t as u64) / 8 + 1]));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    Some(Args { v, hostile })
}
/// a wrapper that makes the call with operands of the given shape
fn wrapper(mb: &mut MB, r: &mut Rng, name: &str, f: u32, idx: usize, a: &[u64], tab: bool) -> (String, Vec<T>, bool) {
    let (p, res) = sig(name);
    let shape = r.below(5);
    let mut code = vec![];
    let wrap_block = r.chance(1, 5);
    let dst = r.below(5);
    if wrap_block {
        code.push(I::Block(BlockType::Result(wasm_encoder::ValType::I32)));
    }
    for (i, t) in p.iter().enumerate() {
        let s = if shape == 4 { r.below(4) } else { shape };
        match s {
            0 => code.push(I::LocalGet(i as u32)),
            1 => code.push(if *t == T::I32 { I::I32Const(a[i] as u32 as i32) } else { I::I64Const(a[i] as i64) }),
            2 => {
                code.push(I::LocalGet(i as u32));
                if *t == T::I32 {
                    code.push(I::I32Const(0));
                    code.push(I::I32Add);
                } else {
                    code.push(I::I64Const(0));
                    code.push(I::I64Add);
                }
            }
            _ => {
                code.push(I::LocalGet(i as u32));
                code.push(I::LocalTee(i as u32));
            }
        }
    }
    let ind = tab && r.chance(1, 4);
    if ind {
        let ty = mb.ty(&p, &res);
        code.push(I::I32Const(f as i32));
        code.push(I::CallIndirect { type_index: ty, table_index: 0 });
    } else {
        code.push(I::Call(f));
    }
    if wrap_block {
        code.push(I::End);
    }
    // the result in a local, in a global, in memory-free arithmetic, or straight
    let l = p.len() as u32;
    match dst {
        0 => {
            code.push(I::LocalSet(l));
            code.push(I::LocalGet(l));
        }
        1 => {
            code.push(I::GlobalSet(0));
            code.push(I::GlobalGet(0));
        }
        2 => {
            code.push(I::LocalTee(l));
            code.push(I::LocalGet(l));
            code.push(I::I32Add);
        }
        _ => {}
    }
    let n = format!("w{}", idx);
    mb.func(Some(&n), &p, &[T::I32], &[T::I32], code);
    (n, p, ind)
}
fn run(cx: &mut Cx, bad: u32, big: bool, only: &dyn Fn(&str) -> bool) -> V {
    let all: Vec<&'static str> = names().into_iter().filter(|n| *n != "proc_raise" && only(n)).collect();
    let pages = if big { 24 + cx.r.below(24) } else { 1 + cx.r.below(3) };
    let mut l = Lay::new(&mut cx.r, pages);
    l.big = big;
    let mut h = HostModel::new(cx.r.u64());
    h.err = *cx.r.pick(&[0, 30, 30, 128]);
    h.argv = strings(&mut cx.r, true, big);
    h.environ = strings(&mut cx.r, false, big);
    let n = 1 + cx.r.below(5);
    let mut picks: Vec<&'static str> = vec![all[cx.idx as usize % all.len()]];
    for _ in 1..n {
        picks.push(*cx.r.pick(&all));
    }
    let mut mb = MB::new();
    let mut uniq: Vec<&'static str> = picks.clone();
    uniq.sort();
    uniq.dedup();
    // imports in random order
    for i in (1..uniq.len()).rev() {
        uniq.swap(i, cx.r.below(i + 1));
    }
    let ids: Vec<u32> = uniq
        .iter()
        .map(|u| {
            let (p, r) = sig(u);
            mb.import("wasi_snapshot_preview1", u, &p, &r)
        })
        .collect();
    mb.mem = Some((pages as u32, Some(pages as u32 + cx.r.below(3) as u32)));
    mb.global(T::I32, true, 77);
    mb.tables.push((T::Fn, ids.len() as u32, None));
    mb.elems.push(El::Active { table: None, off: 0, funcs: ids.clone() });
    let mut calls = vec![];
    let mut hostile = 0;
    for (k, p) in picks.iter().enumerate() {
        let a = match args(&mut cx.r, p, &mut l, &h, bad) {
            Some(a) => a,
            None => continue,
        };
        hostile += a.hostile as u64;
        let f = ids[uniq.iter().position(|u| u == p).unwrap()];
        let (name, ps, ind) = wrapper(&mut mb, &mut cx.r, p, f, k, &a.v, true);
        if ind {
            cx.add("WASI calls through a table", 1);
        }
        calls.push(Call { name, args: ps.iter().zip(&a.v).map(|(t, v)| (*t, *v)).collect() });
    }
    if calls.is_empty() {
        return V::Discard;
    }
    // the memory image as data segments (non-zero runs)
    let mut i = 0;
    while i < l.img.len() {
        if l.img[i] == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        let mut z = 0;
        while j < l.img.len() && z < 16 {
            z = if l.img[j] == 0 { z + 1 } else { 0 };
            j += 1;
        }
        mb.datas.push(Da::Active(i as i32, l.img[i..j].to_vec()));
        i = j;
    }
    let w = mb.finish();
    cx.add("calls with hostile arguments", hostile);
    cx.add("WASI calls", calls.len() as u64);
    let v = compare(cx, &w, &calls, &h, 1_000_000, false, &RunOpt::default());
    let c = crate::host::ctx();
    cx.add("buffers checked by the host", c.ranges);
    cx.add("bytes offered to the host", c.bytes);
    v
}
pub fn strings(r: &mut Rng, argv: bool, big: bool) -> Vec<Vec<u8>> {
    let many = big && r.chance(1, 2);
    let n = match r.below(6) {
        _ if many => *r.pick(&[255, 256, 257, 1000, 4095, 20_000, 66_000]),
        0 => 0,
        1 => 1,
        2 => r.below(60),
        _ => r.below(6),
    };
    let mut v = vec![];
    if argv {
        v.push(b"guest.wasm".to_vec());
    }
    for i in 0..n {
        let k = match r.below(6) {
            0 => 0,
            _ if many => r.below(4),
            1 if big => r.below(90_000),
            1 => r.below(2000),
            _ => r.below(24),
        };
        let mut s: String = if argv { String::new() } else { format!("K{}=", i) };
        for _ in 0..k {
            s.push(*r.pick(&['a', 'b', 'z', ' ', '"', '=', '-', '0', '\u{e9}', '\u{65e5}', '\u{1f600}', '\\', '\n', '\t']));
        }
        v.push(s.into_bytes());
    }
    v
}
pub fn valid(cx: &mut Cx) -> V {
    run(cx, 0, false, &|_| true)
}
/// proc_raise has its own case: see known-findings.txt
pub fn raise(cx: &mut Cx) -> V {
    let mut mb = MB::new();
    let f = mb.import("wasi_snapshot_preview1", "proc_raise", &[T::I32], &[T::I32]);
    mb.mem = Some((1, None));
    mb.func(Some("raise"), &[T::I32], &[T::I32], &[], vec![I::LocalGet(0), I::Call(f)]);
    let w = mb.finish();
    let h = HostModel::new(5);
    match compare(cx, &w, &[Call { name: "raise".into(), args: vec![(T::I32, 6)] }], &h, 1000, false, &RunOpt::default()) {
        V::Bad(d) => V::Bad(format!("proc_raise: {}", d)),
        v => v,
    }
}
/// only the functions that deliver arguments and environment
pub fn deliver(cx: &mut Cx) -> V {
    let b = *cx.r.pick(&[0, 0, 0, 60]);
    run(cx, b, false, &|n| n.starts_with("args_") || n.starts_with("environ_"))
}
pub fn hostile(cx: &mut Cx) -> V {
    let b = *cx.r.pick(&[40, 90, 200]);
    run(cx, b, false, &|_| true)
}
/// the same with thousands of buffers, strings and subscriptions, and long ones
pub fn large(cx: &mut Cx) -> V {
    run(cx, 0, true, &|_| true)
}
pub fn deliver_large(cx: &mut Cx) -> V {
    let b = *cx.r.pick(&[0, 0, 60]);
    run(cx, b, true, &|n| n.starts_with("args_") || n.starts_with("environ_"))
}
pub fn hostile_large(cx: &mut Cx) -> V {
    let b = *cx.r.pick(&[40, 90, 200]);
    run(cx, b, true, &|_| true)
}
/// imports with the wrong signature or unknown names are refused, correct ones accepted
pub fn imports(cx: &mut Cx) -> V {
    let all = names();
    let name = if cx.r.chance(1, 20) { "proc_exit" } else { all[cx.idx as usize % all.len()] };
    let (p, r) = sig(name);
    let (mut p2, mut r2) = (p.clone(), r.clone());
    let mut n2 = name.to_string();
    let mut m2 = "wasi_snapshot_preview1".to_string();
    let kind = cx.r.below(9);
    let any = [T::I32, T::I64, T::F32, T::F64];
    match kind {
        0 => {}
        1 => {
            if p2.is_empty() {
                p2.push(T::I32)
            } else {
                let k = cx.r.below(p2.len());
                p2[k] = *cx.r.pick(&any);
            }
        }
        2 => {
            p2.pop();
        }
        3 => p2.push(*cx.r.pick(&any)),
        4 => {
            r2 = match cx.r.below(3) {
                0 => vec![],
                1 => vec![*cx.r.pick(&any)],
                _ => vec![T::I32, T::I32],
            }
        }
        5 => {
            if p2.len() > 1 {
                let k = cx.r.below(p2.len() - 1);
                p2.swap(k, k + 1);
            }
        }
        6 => {
            n2 = match cx.r.below(5) {
                0 => format!("{}x", name),
                1 => name[..name.len() - 1].to_string(),
                2 => name.to_uppercase(),
                3 => String::new(),
                _ => format!("_{}", name),
            }
        }
        7 => m2 = cx.r.pick(&["wasi_unstable", "env", "wasi_snapshot_preview2", "", "wasi_snapshot_preview"]).to_string(),
        _ => {
            let k = cx.r.below(14);
            p2 = (0..k).map(|_| *cx.r.pick(&any)).collect();
        }
    }
    let known = names().contains(&n2.as_str()) || n2 == "proc_exit";
    let right = known && m2 == "wasi_snapshot_preview1" && p2 == p && r2 == r;
    let mut mb = MB::new();
    // the import may be preceded by another one and may be unused
    if cx.r.chance(1, 2) {
        mb.import("wasi_snapshot_preview1", "sched_yield", &[], &[T::I32]);
    }
    mb.import(&m2, &n2, &p2, &r2);
    mb.mem = Some((1, None));
    mb.func(Some("main"), &[], &[T::I32], &[], vec![I::I32Const(7)]);
    let w = mb.finish();
    cx.case(&w, format!("import {}.{} {:?} -> {:?}", m2, n2, p2, r2));
    crate::host::reset(HostModel::new(1));
    let got = load(&w, &[]);
    let h = fnv(cx.desc.as_bytes(), 9);
    cx.nontrivial(h);
    match (right, got) {
        (true, Err(e)) => V::Bad(format!("a correct import of {} is refused: {}", n2, e)),
        (false, Ok(_)) => V::Bad(format!("the import {}.{} {:?} -> {:?} is accepted (WASI: {:?} -> {:?})", m2, n2, p2, r2, p, r)),
        (true, Ok(_)) => {
            cx.add("correct imports accepted", 1);
            V::Ok
        }
        (false, Err(e)) => {
            if e.starts_with("panic") {
                return V::Bad(format!("the import {}.{} {:?} -> {:?}: {}", m2, n2, p2, r2, e));
            }
            cx.add("wrong imports refused", 1);
            V::Ok
        }
    }
}
