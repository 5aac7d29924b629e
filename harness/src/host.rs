//! Native stand-ins for the wasi-libc functions chiwawa forwards to. They record every call in the
//! shared host model and check every buffer they are handed.
use crate::hostmodel::HostModel;
use chiwawa::execution::mem::MemAddr;

pub struct Ctx {
    pub model: HostModel,
    pub mem: Option<MemAddr>,
    /// memories of further instances
    pub mems: Vec<MemAddr>,
    /// polls of the checkpoint trigger seen
    pub polls: u64,
    /// fire the trigger at this poll
    pub fire_at: u64,
    /// fire the trigger once this many host calls were recorded (polled afterwards)
    pub fire_after_calls: u64,
    pub fired: u64,
    /// answer polls from the real file instead of from the schedule
    pub real_file: bool,
    /// create the trigger file during this host call (1 = the first)
    pub trigger_at_call: u64,
    /// polls counted by the hook when that happened
    pub polls_at_trigger: u64,
    pub bad: Vec<String>,
    pub ranges: u64,
    pub bytes: u64,
}
static mut CTX: Option<Ctx> = None;
#[allow(static_mut_refs)]
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        CTX.get_or_insert_with(|| Ctx {
            model: HostModel::new(0),
            mem: None,
            mems: vec![],
            polls: 0,
            fire_at: u64::MAX,
            fire_after_calls: u64::MAX,
            fired: 0,
            real_file: false,
            trigger_at_call: 0,
            polls_at_trigger: 0,
            bad: vec![],
            ranges: 0,
            bytes: 0,
        })
    }
}
pub fn reset(model: HostModel) {
    let c = ctx();
    c.model = model;
    c.mem = None;
    c.mems.clear();
    c.polls = 0;
    c.fire_at = u64::MAX;
    c.fire_after_calls = u64::MAX;
    c.fired = 0;
    c.real_file = false;
    c.trigger_at_call = 0;
    c.polls_at_trigger = 0;
    c.bad.clear();
    c.ranges = 0;
    c.bytes = 0;
}
pub const TRIGGER: &str = "./checkpoint.trigger";

#[cfg(vh_asan)]
extern "C" {
    fn __asan_region_is_poisoned(p: *const u8, n: usize) -> *const u8;
}
/// Is the whole range usable by the host?
fn ok(p: *const u8, n: usize, what: &str) -> bool {
    if n == 0 {
        return true;
    }
    let c = ctx();
    c.ranges += 1;
    c.bytes += n as u64;
    let a = p as usize;
    if a < 4096 || a.checked_add(n).is_none() {
        c.bad.push(format!("{}: host given {} bytes at {:#x}", what, n, a));
        return false;
    }
    for m in c.mem.iter().chain(&c.mems) {
        let (b, l) = (m.data_ptr() as usize, m.data_len());
        if a >= b && a < b + l {
            if a + n <= b + l {
                return true;
            }
            c.bad.push(format!("{}: host given {} bytes at guest offset {:#x} of a memory of {:#x} bytes", what, n, a - b, l));
            return false;
        }
        if a < b && a + n > b {
            c.bad.push(format!("{}: host given {} bytes that straddle the start of guest memory", what, n));
            return false;
        }
    }
    #[cfg(vh_asan)]
    unsafe {
        let q = __asan_region_is_poisoned(p, n);
        if !q.is_null() {
            let off = q as usize - a;
            c.bad.push(format!("{}: host given {} bytes of which byte {} is outside any live allocation", what, n, off));
            return false;
        }
    }
    true
}
unsafe fn rd(p: *const u8, n: usize, what: &str) -> Option<Vec<u8>> {
    if !ok(p, n, what) {
        return None;
    }
    let mut v = vec![0u8; n];
    if n > 0 {
        std::ptr::copy_nonoverlapping(p, v.as_mut_ptr(), n);
    }
    Some(v)
}
unsafe fn wr(p: *mut u8, d: &[u8]) {
    if !d.is_empty() {
        std::ptr::copy_nonoverlapping(d.as_ptr(), p, d.len());
    }
}
unsafe fn cstr(p: *const u8, what: &str) -> Option<Vec<u8>> {
    let mut v = vec![];
    loop {
        if !ok(p.add(v.len()), 1, what) {
            return None;
        }
        let b = *p.add(v.len());
        if b == 0 {
            return Some(v);
        }
        v.push(b);
    }
}
const FAULT: u16 = 21;

#[repr(C)]
pub struct Iov {
    buf: *mut u8,
    len: u32,
}
unsafe fn iovs(p: *const Iov, n: u32, what: &str) -> Option<Vec<(*mut u8, usize)>> {
    if n > 1 << 20 || !ok(p as *const u8, n as usize * std::mem::size_of::<Iov>(), what) {
        return None;
    }
    let mut v = vec![];
    for i in 0..n as usize {
        let e = std::ptr::read_unaligned(p.add(i));
        if e.len > 0 && !ok(e.buf, e.len as usize, what) {
            return None;
        }
        v.push((e.buf, e.len as usize));
    }
    Some(v)
}
macro_rules! get {
    ($e:expr) => {
        match $e {
            Some(x) => x,
            None => return FAULT,
        }
    };
}
macro_rules! need {
    ($($p:expr, $n:expr, $w:expr);*) => { $( if !ok($p as *const u8, $n as usize, $w) { return FAULT; } )* };
}
unsafe fn gather(v: &[(*mut u8, usize)]) -> Vec<u8> {
    let mut d = vec![];
    for (p, n) in v {
        if *n > 0 {
            d.extend_from_slice(std::slice::from_raw_parts(*p, *n));
        }
    }
    d
}
unsafe fn scatter(v: &[(*mut u8, usize)], d: &[u8]) {
    let mut o = 0;
    for (p, n) in v {
        let k = (*n).min(d.len() - o);
        wr(*p, &d[o..o + k]);
        o += k;
    }
}
fn call(name: &'static str, s: Vec<u64>, i: Vec<Vec<u8>>, c: Vec<u32>) -> (u16, Vec<Vec<u8>>) {
    let x = ctx();
    if x.trigger_at_call > 0 && x.model.calls + 1 == x.trigger_at_call {
        let _ = std::fs::write(TRIGGER, b"");
        x.polls_at_trigger = crate::ckpt::polls();
    }
    x.model.host_call(name, s, i, c)
}
fn plain(name: &'static str, s: Vec<u64>) -> u16 {
    call(name, s, vec![], vec![]).0
}
unsafe fn fixed(name: &'static str, s: Vec<u64>, p: *mut u8, n: u32) -> u16 {
    need!(p, n, name);
    let (e, o) = call(name, s, vec![], vec![n]);
    if e == 0 {
        wr(p, &o[0]);
    }
    e
}
unsafe fn writev(name: &'static str, s: Vec<u64>, p: *const Iov, n: u32, out: *mut u8) -> u16 {
    let v = get!(iovs(p, n, name));
    need!(out, 4, name);
    let (e, o) = call(name, s, vec![gather(&v)], vec![4]);
    if e == 0 {
        wr(out, &o[0]);
    }
    e
}
unsafe fn readv(name: &'static str, s: Vec<u64>, p: *const Iov, n: u32, outs: &[(*mut u8, u32)]) -> u16 {
    let v = get!(iovs(p, n, name));
    let mut caps = vec![v.iter().map(|x| x.1).sum::<usize>() as u32];
    for (q, k) in outs {
        need!(*q, *k, name);
        caps.push(*k);
    }
    let (e, o) = call(name, s, vec![], caps);
    if e == 0 {
        scatter(&v, &o[0]);
        for (i, (q, _)) in outs.iter().enumerate() {
            wr(*q, &o[i + 1]);
        }
    }
    e
}
unsafe fn paths(name: &'static str, s: Vec<u64>, ps: &[*const u8]) -> u16 {
    let mut ins = vec![];
    for p in ps {
        ins.push(get!(cstr(*p, name)));
    }
    call(name, s, ins, vec![]).0
}

macro_rules! x {
    ($($(#[$m:meta])* fn $n:ident($($a:ident : $t:ty),*) $b:block)*) => { $( #[no_mangle] pub unsafe extern "C" fn $n($($a: $t),*) -> u16 $b )* };
}
type P = *mut u8;
type C = *const u8;
x! {
    fn __wasi_fd_write(fd: u32, i: *const Iov, n: u32, o: P) { writev("fd_write", vec![fd as u64], i, n, o) }
    fn __wasi_fd_pwrite(fd: u32, i: *const Iov, n: u32, off: u64, o: P) { writev("fd_pwrite", vec![fd as u64, off], i, n, o) }
    fn __wasi_fd_read(fd: u32, i: *const Iov, n: u32, o: P) { readv("fd_read", vec![fd as u64], i, n, &[(o, 4)]) }
    fn __wasi_fd_pread(fd: u32, i: *const Iov, n: u32, off: u64, o: P) { readv("fd_pread", vec![fd as u64, off], i, n, &[(o, 4)]) }
    fn __wasi_sock_recv(fd: u32, i: *const Iov, n: u32, fl: u32, o: P, f: P) { readv("sock_recv", vec![fd as u64, fl as u64], i, n, &[(o, 4), (f, 2)]) }
    fn __wasi_sock_send(fd: u32, i: *const Iov, n: u32, fl: u32, o: P) { writev("sock_send", vec![fd as u64, fl as u64], i, n, o) }
    fn __wasi_args_sizes_get(_c: P, _s: P) { 52 }
    fn __wasi_args_get(_a: P, _b: P) { 52 }
    fn __wasi_random_get(b: P, n: u32) { fixed("random_get", vec![], b, n) }
    fn __wasi_environ_sizes_get(c: *mut u32, s: *mut u32) {
        need!(c, 4, "environ_sizes_get"; s, 4, "environ_sizes_get");
        let e = &ctx().model.environ;
        std::ptr::write_unaligned(c, e.len() as u32);
        std::ptr::write_unaligned(s, e.iter().map(|x| x.len() + 1).sum::<usize>() as u32);
        0
    }
    fn __wasi_environ_get(v: *mut P, b: P) {
        let e = &ctx().model.environ;
        let sz: usize = e.iter().map(|x| x.len() + 1).sum();
        need!(v, e.len() * std::mem::size_of::<P>(), "environ_get"; b, sz, "environ_get");
        let mut q = b;
        for (i, s) in e.iter().enumerate() {
            std::ptr::write_unaligned(v.add(i), q);
            wr(q, s);
            *q.add(s.len()) = 0;
            q = q.add(s.len() + 1);
        }
        0
    }
    fn __wasi_clock_time_get(id: u32, prec: u64, t: P) { fixed("clock_time_get", vec![id as u64, prec], t, 8) }
    fn __wasi_clock_res_get(id: u32, t: P) { fixed("clock_res_get", vec![id as u64], t, 8) }
    fn __wasi_sched_yield() { plain("sched_yield", vec![]) }
    fn __wasi_fd_close(fd: u32) { plain("fd_close", vec![fd as u64]) }
    fn __wasi_fd_sync(fd: u32) { plain("fd_sync", vec![fd as u64]) }
    fn __wasi_fd_datasync(fd: u32) { plain("fd_datasync", vec![fd as u64]) }
    fn __wasi_fd_prestat_get(fd: u32, p: P) { fixed("fd_prestat_get", vec![fd as u64], p, 8) }
    fn __wasi_fd_prestat_dir_name(fd: u32, p: P, n: u32) { fixed("fd_prestat_dir_name", vec![fd as u64], p, n) }
    fn __wasi_fd_fdstat_get(fd: u32, p: P) { fixed("fd_fdstat_get", vec![fd as u64], p, 24) }
    fn __wasi_fd_seek(fd: u32, off: i64, wh: u32, p: P) { fixed("fd_seek", vec![fd as u64, off as u64, wh as u64], p, 8) }
    fn __wasi_fd_tell(fd: u32, p: P) { fixed("fd_tell", vec![fd as u64], p, 8) }
    fn __wasi_fd_fdstat_set_flags(fd: u32, f: u32) { plain("fd_fdstat_set_flags", vec![fd as u64, f as u64]) }
    fn __wasi_fd_filestat_set_size(fd: u32, s: u64) { plain("fd_filestat_set_size", vec![fd as u64, s]) }
    fn __wasi_fd_filestat_get(fd: u32, p: P) { fixed("fd_filestat_get", vec![fd as u64], p, 64) }
    fn __wasi_path_create_directory(fd: u32, p: C) { paths("path_create_directory", vec![fd as u64], &[p]) }
    fn __wasi_path_remove_directory(fd: u32, p: C) { paths("path_remove_directory", vec![fd as u64], &[p]) }
    fn __wasi_path_unlink_file(fd: u32, p: C) { paths("path_unlink_file", vec![fd as u64], &[p]) }
    fn __wasi_path_readlink(fd: u32, p: C, b: P, n: u32, u: P) {
        let s = get!(cstr(p, "path_readlink"));
        need!(b, n, "path_readlink"; u, 4, "path_readlink");
        let (e, o) = call("path_readlink", vec![fd as u64], vec![s], vec![n, 4]);
        if e == 0 { wr(b, &o[0]); wr(u, &o[1]); }
        e
    }
    fn __wasi_path_filestat_get(fd: u32, fl: u32, p: C, st: P) {
        let s = get!(cstr(p, "path_filestat_get"));
        if fd == 3 && fl == 0 && s == TRIGGER.as_bytes() {
            return poll();
        }
        need!(st, 64, "path_filestat_get");
        let (e, o) = call("path_filestat_get", vec![fd as u64, fl as u64], vec![s], vec![64]);
        if e == 0 { wr(st, &o[0]); }
        e
    }
    fn __wasi_path_filestat_set_times(fd: u32, fl: u32, p: C, a: u64, m: u64, f: u32) {
        paths("path_filestat_set_times", vec![fd as u64, fl as u64, a, m, f as u64], &[p])
    }
    fn __wasi_path_open(fd: u32, df: u32, p: C, of: u16, rb: u64, ri: u64, ff: u16, o: P) {
        let s = get!(cstr(p, "path_open"));
        need!(o, 4, "path_open");
        let (e, r) = call("path_open", vec![fd as u64, df as u64, of as u64, rb, ri, ff as u64], vec![s], vec![4]);
        if e == 0 { wr(o, &r[0]); }
        e
    }
    fn __wasi_poll_oneoff(i: C, o: P, n: u32, ne: P) {
        let sub = get!(rd(i, 48 * n as usize, "poll_oneoff"));
        need!(o, 32 * n as usize, "poll_oneoff"; ne, 4, "poll_oneoff");
        let (e, r) = call("poll_oneoff", vec![n as u64], vec![sub], vec![32 * n, 4]);
        if e == 0 { wr(o, &r[0]); wr(ne, &r[1]); }
        e
    }
    fn __wasi_fd_readdir(fd: u32, b: P, n: u32, ck: u64, u: P) {
        need!(b, n, "fd_readdir"; u, 4, "fd_readdir");
        let (e, r) = call("fd_readdir", vec![fd as u64, ck], vec![], vec![n, 4]);
        if e == 0 { wr(b, &r[0]); wr(u, &r[1]); }
        e
    }
    fn __wasi_proc_raise(s: u32) { plain("proc_raise", vec![s as u64]) }
    fn __wasi_fd_advise(fd: u32, o: u64, l: u64, a: u8) { plain("fd_advise", vec![fd as u64, o, l, a as u64]) }
    fn __wasi_fd_allocate(fd: i32, o: u64, l: u64) { plain("fd_allocate", vec![fd as u32 as u64, o, l]) }
    fn __wasi_fd_fdstat_set_rights(fd: u32, a: u64, b: u64) { plain("fd_fdstat_set_rights", vec![fd as u64, a, b]) }
    fn __wasi_fd_renumber(a: i32, b: i32) { plain("fd_renumber", vec![a as u32 as u64, b as u32 as u64]) }
    fn __wasi_fd_filestat_set_times(fd: u32, a: u64, m: u64, f: u32) { plain("fd_filestat_set_times", vec![fd as u64, a, m, f as u64]) }
    fn __wasi_path_link(a: u32, fl: u32, p: C, b: u32, q: C) { paths("path_link", vec![a as u64, fl as u64, b as u64], &[p, q]) }
    fn __wasi_path_rename(a: u32, p: C, b: u32, q: C) { paths("path_rename", vec![a as u64, b as u64], &[p, q]) }
    fn __wasi_path_symlink(p: C, fd: u32, q: C) { paths("path_symlink", vec![fd as u64], &[p, q]) }
    fn __wasi_sock_accept(fd: u32, fl: u32, o: P) { fixed("sock_accept", vec![fd as u64, fl as u64], o, 4) }
    fn __wasi_sock_shutdown(fd: u32, how: u32) { plain("sock_shutdown", vec![fd as u64, how as u64]) }
}
fn poll() -> u16 {
    let c = ctx();
    let k = c.polls;
    c.polls += 1;
    if c.real_file {
        return if std::path::Path::new(TRIGGER).exists() { 0 } else { 44 };
    }
    if c.fired == 0 && (k >= c.fire_at || c.model.calls >= c.fire_after_calls) {
        c.fired += 1;
        // the request is a real file, which the runtime must consume
        let _ = std::fs::write(TRIGGER, b"");
    }
    if c.fired > 0 && std::path::Path::new(TRIGGER).exists() {
        0
    } else {
        44
    }
}
/// exit code handed to the process exit stand-in (only reached in forked children)
#[no_mangle]
pub unsafe extern "C" fn __wasi_proc_exit(c: u32) -> ! {
    libc::_exit((c & 0x7f) as i32)
}
