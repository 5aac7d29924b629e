//! Deterministic model of the WASI host, shared by the reference interpreter and by the native
//! `__wasi_*` stand-ins that chiwawa's passthrough calls. Every call is recorded at the level of the
//! host interface: name, scalar arguments, bytes read, capacities offered.
use crate::rng::{mix, Rng};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ent {
    pub name: &'static str,
    pub scalars: Vec<u64>,
    pub inputs: Vec<Vec<u8>>,
    pub caps: Vec<u32>,
}

pub trait MemView {
    fn len(&self) -> u64;
    fn read(&self, a: u64, n: u64) -> Vec<u8>;
    fn write(&mut self, a: u64, d: &[u8]);
}

pub enum HR {
    Val(u32),
    Void,
    Fault,
    Exit(u32),
    /// two outputs overlap (which one lands last is not specified), or a path holds a NUL
    Unspec,
}

/// argument kinds, in guest order
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A {
    /// i32 scalar
    S,
    /// i64 scalar
    L,
    /// path: ptr,len
    P,
    /// gather iovecs: ptr,count
    I,
    /// scatter iovecs: ptr,count
    O,
    /// output buffer: ptr,len
    B,
    /// fixed-size output
    F(u32),
}
use A::*;
pub const SPECS: &[(&str, &[A])] = &[
    ("fd_write", &[S, I, F(4)]),
    ("fd_read", &[S, O, F(4)]),
    ("fd_pwrite", &[S, I, L, F(4)]),
    ("fd_pread", &[S, O, L, F(4)]),
    ("random_get", &[B]),
    ("clock_time_get", &[S, L, F(8)]),
    ("clock_res_get", &[S, F(8)]),
    ("sched_yield", &[]),
    ("fd_close", &[S]),
    ("fd_sync", &[S]),
    ("fd_datasync", &[S]),
    ("fd_prestat_get", &[S, F(8)]),
    ("fd_prestat_dir_name", &[S, B]),
    ("fd_fdstat_get", &[S, F(24)]),
    ("fd_seek", &[S, L, S, F(8)]),
    ("fd_tell", &[S, F(8)]),
    ("fd_fdstat_set_flags", &[S, S]),
    ("fd_filestat_set_size", &[S, L]),
    ("fd_filestat_get", &[S, F(64)]),
    ("path_create_directory", &[S, P]),
    ("path_remove_directory", &[S, P]),
    ("path_unlink_file", &[S, P]),
    ("path_readlink", &[S, P, B, F(4)]),
    ("path_filestat_get", &[S, S, P, F(64)]),
    ("path_filestat_set_times", &[S, S, P, L, L, S]),
    ("path_open", &[S, S, P, S, L, L, S, F(4)]),
    ("fd_readdir", &[S, B, L, F(4)]),
    ("proc_raise", &[S]),
    ("fd_advise", &[S, L, L, S]),
    ("fd_allocate", &[S, L, L]),
    ("fd_fdstat_set_rights", &[S, L, L]),
    ("fd_renumber", &[S, S]),
    ("fd_filestat_set_times", &[S, L, L, S]),
    ("path_link", &[S, S, P, S, P]),
    ("path_rename", &[S, P, S, P]),
    ("path_symlink", &[P, S, P]),
    ("sock_accept", &[S, S, F(4)]),
    ("sock_recv", &[S, O, S, F(4), F(2)]),
    ("sock_send", &[S, I, S, F(4)]),
    ("sock_shutdown", &[S, S]),
];
pub fn spec(name: &str) -> Option<(&'static str, &'static [A])> {
    SPECS.iter().find(|(n, _)| *n == name).map(|x| (x.0, x.1))
}
/// scalars whose host type is narrower than the guest's
pub fn narrow(name: &str, i: usize) -> Option<u64> {
    match (name, i) {
        ("path_open", 4) | ("path_open", 7) => Some(0xffff),
        ("fd_advise", 3) => Some(0xff),
        ("fd_fdstat_set_flags", 1) => Some(0xffff),
        ("sock_recv", 3) | ("sock_send", 3) | ("sock_accept", 1) => Some(0xffff),
        ("fd_filestat_set_times", 3) => Some(0xffff),
        ("path_filestat_set_times", 6) => Some(0xffff),
        ("fd_seek", 2) | ("sock_shutdown", 1) | ("proc_raise", 0) => Some(0xff),
        _ => None,
    }
}
/// guest signature: false = i32, true = i64
pub fn guest_params(name: &str) -> Vec<bool> {
    match name {
        "args_get" | "args_sizes_get" | "environ_get" | "environ_sizes_get" => vec![false, false],
        "poll_oneoff" => vec![false; 4],
        "proc_exit" => vec![false],
        _ => {
            let (_, s) = spec(name).expect("spec");
            let mut v = vec![];
            for a in s {
                match a {
                    S | F(_) => v.push(false),
                    L => v.push(true),
                    P | I | O | B => {
                        v.push(false);
                        v.push(false)
                    }
                }
            }
            v
        }
    }
}

#[derive(Clone)]
pub struct HostModel {
    pub seed: u64,
    pub calls: u64,
    pub log: Vec<Ent>,
    pub argv: Vec<Vec<u8>>,
    pub environ: Vec<Vec<u8>>,
    /// chance (of 256) that a call fails with an error number
    pub err: u32,
    /// host calls the reference saw whose arguments do not fit in memory
    pub faults: u64,
}
impl HostModel {
    pub fn new(seed: u64) -> HostModel {
        HostModel { seed, calls: 0, log: vec![], argv: vec![], environ: vec![], err: 30, faults: 0 }
    }
    pub fn reads_memory(&self, name: &str) -> bool {
        if name == "poll_oneoff" {
            return true;
        }
        match spec(name) {
            Some((_, s)) => s.iter().any(|a| matches!(a, P | I | O)),
            None => false,
        }
    }
    /// One host call. `caps` lists, in order, the capacity of every output. Outputs are shorter than
    /// or equal to their capacity; fixed outputs that follow a variable one carry its length.
    pub fn host_call(&mut self, name: &'static str, scalars: Vec<u64>, inputs: Vec<Vec<u8>>, caps: Vec<u32>) -> (u16, Vec<Vec<u8>>) {
        let mut r = Rng::new(mix(self.seed ^ mix(self.calls)));
        self.calls += 1;
        let total_in: usize = inputs.iter().map(|x| x.len()).sum();
        let mut outs = vec![];
        let errno = if (r.u64() & 255) < self.err as u64 { 1 + r.below(75) as u16 } else { 0 };
        if errno == 0 {
            let mut last: Option<u32> = None;
            let spec = spec(name);
            let vars: Vec<bool> = match spec {
                Some((_, s)) => s
                    .iter()
                    .filter_map(|a| match a {
                        B | O => Some(true),
                        F(_) => Some(false),
                        _ => None,
                    })
                    .collect(),
                None => vec![true, false],
            };
            let full = matches!(name, "random_get" | "fd_prestat_dir_name");
            for (i, c) in caps.iter().enumerate() {
                if *vars.get(i).unwrap_or(&false) {
                    let n = if full {
                        *c
                    } else if name == "poll_oneoff" {
                        (1 + r.below((*c / 32).max(1) as usize) as u32).min(*c / 32) * 32
                    } else {
                        match r.below(4) {
                            0 => *c,
                            1 => 0,
                            _ => r.below(*c as usize + 1) as u32,
                        }
                    };
                    last = Some(if name == "poll_oneoff" { n / 32 } else { n });
                    let mut d = vec![0u8; n as usize];
                    for chunk in d.chunks_mut(8) {
                        let b = r.u64().to_le_bytes();
                        let l = chunk.len();
                        chunk.copy_from_slice(&b[..l]);
                    }
                    outs.push(d);
                } else {
                    let mut d = vec![0u8; *c as usize];
                    for chunk in d.chunks_mut(8) {
                        let b = r.u64().to_le_bytes();
                        let l = chunk.len();
                        chunk.copy_from_slice(&b[..l]);
                    }
                    if *c == 4 {
                        if let Some(n) = last.take() {
                            d.copy_from_slice(&n.to_le_bytes());
                        } else if matches!(name, "fd_write" | "fd_pwrite" | "sock_send") {
                            d.copy_from_slice(&(r.below(total_in + 1) as u32).to_le_bytes());
                        }
                    }
                    outs.push(d);
                }
            }
        }
        self.log.push(Ent { name, scalars, inputs, caps });
        (errno, outs)
    }

    /// A WASI call as the guest makes it, against the given memory (the specification side).
    pub fn guest_call<M: MemView + ?Sized>(&mut self, name: &str, a: &[u64], mem: &mut M) -> HR {
        let ml = mem.len();
        let fits = |p: u64, n: u64| p & 0xffff_ffff == p && p + n <= ml;
        let rd32 = |m: &M, p: u64| {
            let b = m.read(p, 4);
            u32::from_le_bytes([b[0], b[1], b[2], b[3]])
        };
        macro_rules! fault {
            () => {{
                self.faults += 1;
                return HR::Fault;
            }};
        }
        let clash = |o: &[(u64, u64)]| {
            let mut v: Vec<(u64, u64)> = o.iter().copied().filter(|x| x.1 > 0).collect();
            v.sort();
            v.windows(2).any(|w| w[0].0 + w[0].1 > w[1].0)
        };
        match name {
            "proc_exit" => return HR::Exit(a[0] as u32),
            "args_sizes_get" | "environ_sizes_get" => {
                let v = if name.starts_with("args") { &self.argv } else { &self.environ };
                let n = v.len() as u32;
                let sz: usize = v.iter().map(|x| x.len() + 1).sum();
                if !fits(a[0], 4) || !fits(a[1], 4) {
                    fault!()
                }
                if clash(&[(a[0], 4), (a[1], 4)]) {
                    return HR::Unspec;
                }
                mem.write(a[0], &n.to_le_bytes());
                mem.write(a[1], &(sz as u32).to_le_bytes());
                return HR::Val(0);
            }
            "args_get" | "environ_get" => {
                let v = if name.starts_with("args") { self.argv.clone() } else { self.environ.clone() };
                let sz: usize = v.iter().map(|x| x.len() + 1).sum();
                if !fits(a[0], 4 * v.len() as u64) || !fits(a[1], sz as u64) {
                    fault!()
                }
                if clash(&[(a[0], 4 * v.len() as u64), (a[1], sz as u64)]) {
                    return HR::Unspec;
                }
                let mut p = a[1] as u32;
                for (i, s) in v.iter().enumerate() {
                    mem.write(a[0] + 4 * i as u64, &p.to_le_bytes());
                    mem.write(p as u64, s);
                    mem.write(p as u64 + s.len() as u64, &[0]);
                    p += s.len() as u32 + 1;
                }
                return HR::Val(0);
            }
            "poll_oneoff" => {
                let n = a[2];
                if !fits(a[0], 48 * n) || !fits(a[1], 32 * n) || !fits(a[3], 4) {
                    fault!()
                }
                if clash(&[(a[1], 32 * n), (a[3], 4)]) {
                    return HR::Unspec;
                }
                let subs = mem.read(a[0], 48 * n);
                let (e, o) = self.host_call("poll_oneoff", vec![n], vec![subs], vec![32 * n as u32, 4]);
                if e == 0 {
                    mem.write(a[1], &o[0]);
                    mem.write(a[3], &o[1]);
                }
                return HR::Val(e as u32);
            }
            _ => {}
        }
        let (nm, sp) = match spec(name) {
            Some(x) => x,
            None => panic!("hostmodel: {}", name),
        };
        let (mut scal, mut ins, mut caps) = (vec![], vec![], vec![]);
        enum D {
            Plain(u64),
            Scatter(Vec<(u64, u64)>),
        }
        let mut dests = vec![];
        let mut i = 0;
        for k in sp {
            match k {
                S | L => {
                    // the host interface takes some numbers as 8 or 16 bits
                    scal.push(if matches!(name, "path_open" | "fd_advise") { a[i] & narrow(name, i).unwrap_or(u64::MAX) } else { a[i] });
                    i += 1
                }
                P => {
                    if !fits(a[i], a[i + 1]) {
                        fault!()
                    }
                    let path = mem.read(a[i], a[i + 1]);
                    if path.contains(&0) {
                        return HR::Unspec; // the C interface chiwawa calls ends a path at a NUL
                    }
                    ins.push(path);
                    i += 2
                }
                B => {
                    if !fits(a[i], a[i + 1]) {
                        fault!()
                    }
                    caps.push(a[i + 1] as u32);
                    dests.push(D::Plain(a[i]));
                    i += 2
                }
                F(n) => {
                    if !fits(a[i], *n as u64) {
                        fault!()
                    }
                    caps.push(*n);
                    dests.push(D::Plain(a[i]));
                    i += 1
                }
                I | O => {
                    let (p, n) = (a[i], a[i + 1]);
                    if !fits(p, n * 8) {
                        fault!()
                    }
                    let mut v = vec![];
                    for j in 0..n {
                        let b = rd32(mem, p + 8 * j) as u64;
                        let l = rd32(mem, p + 8 * j + 4) as u64;
                        if l != 0 && !fits(b, l) {
                            fault!()
                        }
                        v.push((b, l));
                    }
                    if *k == I {
                        let mut d = vec![];
                        for (b, l) in v {
                            if l > 0 {
                                d.extend(mem.read(b, l));
                            }
                        }
                        ins.push(d);
                    } else {
                        caps.push(v.iter().map(|x| x.1).sum::<u64>() as u32);
                        dests.push(D::Scatter(v));
                    }
                    i += 2
                }
            }
        }
        if name == "random_get" && caps[0] == 0 {
            return HR::Val(0); // nothing to fill: the host need not be asked
        }
        let mut o = vec![];
        for (d, c) in dests.iter().zip(&caps) {
            match d {
                D::Plain(p) => o.push((*p, *c as u64)),
                D::Scatter(v) => o.extend(v.iter().copied()),
            }
        }
        if clash(&o) {
            return HR::Unspec;
        }
        let (e, outs) = self.host_call(nm, scal, ins, caps);
        if e == 0 {
            for (d, o) in dests.iter().zip(outs) {
                match d {
                    D::Plain(p) => mem.write(*p, &o),
                    D::Scatter(v) => {
                        let mut off = 0;
                        for (b, l) in v {
                            let n = (*l as usize).min(o.len() - off);
                            if n > 0 {
                                mem.write(*b, &o[off..off + n]);
                            }
                            off += n;
                        }
                    }
                }
            }
        }
        HR::Val(e as u32)
    }
}
