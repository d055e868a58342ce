//! Safe bindings to the simulator runtime (simrt.c).
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::ffi::{c_char, c_int, c_void, CString};
use std::panic::AssertUnwindSafe;

pub const MAX_INODES: usize = 256;
pub const FILE_CAP: usize = 4 << 20;
pub const PATH_CAP: usize = 200;
pub const MAX_DECISIONS: usize = 200000;
pub const MAX_FAULTS: usize = 2048;
pub const MAX_FSOPS: usize = 65536;
pub const MAX_RESULT: usize = 32 << 20;
pub const MAX_STDERR: usize = 1 << 20;
pub const MAX_GUARDS: usize = 1 << 20;
pub const MAX_EVENTS: usize = 65536;

pub mod fk {
    pub const SHORT_READ: u32 = 1;
    pub const EINTR_READ: u32 = 2;
    pub const EIO_READ: u32 = 3;
    pub const EIO_READ_STICKY: u32 = 4;
    pub const OPEN_ERR: u32 = 5;
    pub const SHORT_WRITE: u32 = 6;
    pub const EINTR_WRITE: u32 = 7;
    pub const ENOSPC_WRITE: u32 = 8;
    pub const ENOSPC_ONCE: u32 = 9;
    pub const EIO_WRITE: u32 = 10;
    pub const EIO_WRITE_STICKY: u32 = 11;
    pub const MKDIR_ERR: u32 = 12;
    pub const CRASH: u32 = 13;
    pub const TRUNC_FILE: u32 = 14;
    pub const STAT_ERR: u32 = 15;
    pub const SPURIOUS_WAKE: u32 = 16;
    pub const CLOCK_JUMP: u32 = 17;
    pub const STALL: u32 = 18;
    pub const OPEN_EINTR: u32 = 19;
    pub const TORN_CRASH: u32 = 20;
    pub const LOST_UNSYNCED: u32 = 21;
    pub const BAD_SECTOR: u32 = 22;
    pub const REPLACE_FILE: u32 = 23;
    pub const MAX: usize = 24;
    pub const NAMES: [&str; MAX] = [
        "none", "short_read", "eintr_read", "eio_read", "eio_read_sticky", "open_error", "short_write",
        "eintr_write", "disk_full", "enospc_once", "eio_write", "eio_write_sticky", "mkdir_error", "crash",
        "input_truncated_midway", "stat_error", "spurious_futex_wake", "clock_jump", "thread_stall", "open_eintr",
        "torn_write_crash", "lost_unsynced_data", "unreadable_sector", "input_replaced_midway",
    ];
}
pub mod op {
    pub const OPEN: u32 = 1;
    pub const READ: u32 = 2;
    pub const WRITE: u32 = 3;
    pub const CLOSE: u32 = 4;
    pub const STAT: u32 = 5;
    pub const MKDIR: u32 = 6;
    pub const LSEEK: u32 = 7;
    pub const UNLINK: u32 = 8;
    pub const RENAME: u32 = 9;
    pub const FSYNC: u32 = 10;
    pub const TRUNC: u32 = 11;
}
#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Decision { pub count: u64, pub kind: u32, pub tid: u32 }
#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault { pub op: u32, pub kind: u32, pub param: i64 }
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct FsOp { pub kind: u32, pub inode: i32, pub arg: i64, pub result: i64, pub count: u64, pub tid: u32, pub flags: u32 }
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Event { pub seq: u64, pub tid: u32, pub tag: u32, pub a: u64, pub b: u64 }

/// scheduling and environment of a phase
#[repr(C)]
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
#[serde(default)]
pub struct Cfg {
    pub seed: u64, pub replay: u32, pub ncpu: u32, pub policy: u32, pub gap: u32, pub pct_depth: u32, pub pct_len: u64,
    pub hot_mod: u32, pub hot_pct: u32, pub hot_budget: u32, pub stall_pct: u32, pub stall_len: u64,
    pub spurious_pm: u32, pub clock_jump_pm: u32, pub short_read_pm: u32, pub eintr_read_pm: u32,
    pub short_write_pm: u32, pub eintr_write_pm: u32, pub tty: u32, pub step_limit: u64, pub capacity: u64,
    pub time_base: u64, pub ndec: u32, pub nfaults: u32,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { seed: 1, replay: 0, ncpu: 4, policy: 2, gap: 0, pct_depth: 0, pct_len: 0, hot_mod: 0, hot_pct: 0, hot_budget: 0,
            stall_pct: 0, stall_len: 0, spurious_pm: 0, clock_jump_pm: 0, short_read_pm: 0, eintr_read_pm: 0,
            short_write_pm: 0, eintr_write_pm: 0, tty: 0, step_limit: 2_000_000_000, capacity: 0,
            time_base: 1_700_000_000_000_000_000, ndec: 0, nfaults: 0 }
    }
}
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Stats {
    pub outcome: i32, pub code: i32, pub signal: i32, pub pad: i32,
    pub points: u64, pub switches: u64, pub preemptions: u64, pub trace_hash: u64, pub sched_hash: u64, pub sim_ns: u64,
    pub nthreads: u32, pub nfsops: u32, pub ndec_out: u32, pub nfaults_out: u32, pub new_guards: u32, pub dec_overflow: u32,
    pub fired: [u64; fk::MAX], pub foreign_opens: u64, pub result_len: u64, pub stderr_len: u64, pub stdout_len: u64,
    pub nevents: u64, pub futex_waits: u64, pub futex_wakes: u64, pub yields: u64, pub note: [u8; 256],
}
#[repr(C)]
pub struct Inode {
    pub used: u8, pub is_dir: u8, pub sticky_eio: u8, pub created: u8, pub opens_w: u32,
    pub size: u64, pub synced: u64, pub version: u64, pub path: [u8; PATH_CAP],
}
#[repr(C)]
pub struct Shm {
    pub cfg: Cfg, pub st: Stats, pub inodes: [Inode; MAX_INODES],
    pub dec_in: [Decision; MAX_DECISIONS], pub dec_out: [Decision; MAX_DECISIONS],
    pub faults_in: [Fault; MAX_FAULTS], pub faults_out: [Fault; MAX_FAULTS],
    pub fsops: [FsOp; MAX_FSOPS], pub events: [Event; MAX_EVENTS], pub guards_hit: [u8; MAX_GUARDS],
    pub err: [u8; MAX_STDERR], pub out: [u8; MAX_STDERR], pub result: [u8; MAX_RESULT],
}
extern "C" {
    fn sim_get() -> *mut Shm;
    fn sim_file_data(i: c_int) -> *mut u8;
    fn sim_fs_reset();
    fn sim_fs_put(path: *const c_char, data: *const u8, len: u64) -> c_int;
    fn sim_fs_mkdir(path: *const c_char) -> c_int;
    fn sim_fs_find(path: *const c_char) -> c_int;
    fn sim_phase(f: extern "C" fn(*mut c_void), arg: *mut c_void) -> c_int;
    fn sim_set_result(p: *const u8, len: u64);
    fn sim_mark_panic();
    fn sim_self() -> u32;
    fn sim_seq() -> u64;
    fn sim_event_log(tag: u32, a: u64, b: u64);
    fn sim_active() -> c_int;
    fn sim_set_args(n: c_int, args: *const *const c_char);
    fn sim_point();
    fn sim_nguards() -> u32;
    fn sim_freeze(on: c_int);
    fn sim_alloc(size: usize, align: usize) -> *mut u8;
    fn sim_free(p: *mut u8, size: usize, align: usize);
    fn sim_realloc(p: *mut u8, old: usize, align: usize, n: usize) -> *mut u8;
    fn sim_in_arena(p: *mut u8) -> c_int;
    fn sim_open_files() -> c_int;
    fn sim_layout(out: *mut u64);
}

pub struct SimAlloc;
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if sim_active() != 0 { sim_alloc(l.size(), l.align()) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if sim_in_arena(p) != 0 { sim_free(p, l.size(), l.align()) } else if sim_active() == 0 { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if sim_active() != 0 { sim_realloc(p, l.size(), l.align(), n) } else { System.realloc(p, l, n) }
    }
}

pub fn shm() -> &'static mut Shm { unsafe { &mut *sim_get() } }
/// simulated files the running process has open
pub fn open_files() -> usize { unsafe { sim_open_files() as usize } }
pub fn self_id() -> u32 { unsafe { sim_self() } }
pub fn seq() -> u64 { unsafe { sim_seq() } }
pub fn event(tag: u32, a: u64, b: u64) { unsafe { sim_event_log(tag, a, b) } }
pub fn point() { unsafe { sim_point() } }
pub fn nguards() -> u32 { unsafe { sim_nguards() } }
/// Harness code between creation and drop runs without scheduling points.
pub struct Freeze(());
impl Freeze { pub fn new() -> Self { unsafe { sim_freeze(1) }; Freeze(()) } }
impl Drop for Freeze { fn drop(&mut self) { unsafe { sim_freeze(0) } } }
pub fn active() -> bool { unsafe { sim_active() != 0 } }

pub fn check_layout() {
    let mut l = [0u64; 8];
    unsafe { sim_layout(l.as_mut_ptr()) };
    use std::mem::{offset_of, size_of};
    let mine = [size_of::<Cfg>(), size_of::<Stats>(), size_of::<Inode>(), size_of::<Shm>(),
        offset_of!(Shm, dec_in), offset_of!(Shm, fsops), offset_of!(Shm, events), offset_of!(Shm, result)];
    for i in 0..8 { assert_eq!(l[i], mine[i] as u64, "simrt layout mismatch {i}"); }
}

pub fn set_args(args: &[String]) {
    let c: Vec<CString> = args.iter().map(|a| CString::new(a.as_bytes()).unwrap()).collect();
    let p: Vec<*const c_char> = c.iter().map(|c| c.as_ptr()).collect();
    unsafe { sim_set_args(p.len() as c_int, p.as_ptr()) }
}

/// simulated disk, as seen from outside the simulated process
pub mod fs {
    use super::*;
    pub fn reset() { unsafe { sim_fs_reset() }; mkdir("/simfs/cwd"); }
    pub fn mkdir(p: &str) { let c = CString::new(p).unwrap(); unsafe { sim_fs_mkdir(c.as_ptr()) }; }
    pub fn put(p: &str, data: &[u8]) {
        let c = CString::new(p).unwrap();
        let r = unsafe { sim_fs_put(c.as_ptr(), data.as_ptr(), data.len() as u64) };
        assert!(r >= 0, "simulated disk full");
    }
    /// symbolic link to a directory or file
    pub fn dirlink(p: &str, target: &str) { link(p, target, 2) }
    /// second name of a file
    pub fn hardlink(p: &str, target: &str) { link(p, target, 3) }
    fn link(p: &str, target: &str, kind: u8) {
        let mut t = target.as_bytes().to_vec(); t.push(0);
        put(p, &t);
        let c = CString::new(p).unwrap();
        let i = unsafe { sim_fs_find(c.as_ptr()) };
        shm().inodes[i as usize].is_dir = kind as _;
    }
    pub fn find(p: &str) -> Option<usize> {
        let c = CString::new(p).unwrap();
        let i = unsafe { sim_fs_find(c.as_ptr()) };
        if i < 0 { None } else { Some(i as usize) }
    }
    pub fn data(i: usize) -> &'static [u8] {
        unsafe { std::slice::from_raw_parts(sim_file_data(i as c_int), shm().inodes[i].size as usize) }
    }
    pub fn read(p: &str) -> Option<Vec<u8>> { find(p).filter(|i| shm().inodes[*i].is_dir == 0).map(|i| data(i).to_vec()) }
    pub fn path(i: usize) -> String {
        let p = &shm().inodes[i].path;
        let n = p.iter().position(|b| *b == 0).unwrap_or(PATH_CAP);
        String::from_utf8_lossy(&p[..n]).into_owned()
    }
    /// all regular files: path, contents
    pub fn list() -> Vec<(String, Vec<u8>)> {
        let mut v = Vec::new();
        for i in 0..MAX_INODES {
            let n = &shm().inodes[i];
            if n.used != 0 && n.is_dir == 0 && n.path[0] != 0 { v.push((path(i), data(i).to_vec())); }
        }
        v.sort();
        v
    }
    pub fn truncate(i: usize, n: u64) { let f = &mut shm().inodes[i]; if f.size > n { f.size = n; } if f.synced > n { f.synced = n; } }
    pub fn remove(i: usize) { shm().inodes[i].used = 0; }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Outcome { Returned, Exit(i32), Crash, Deadlock, StepLimit, Abort, Signal(i32), CpuLimit, Panic, Harness }

#[derive(Clone, Debug)]
pub struct Phase<R> {
    pub outcome: Outcome,
    pub result: Option<R>,
    pub panic: Option<String>,
    pub stderr: String,
    pub stdout: Vec<u8>,
    pub note: String,
    pub points: u64, pub switches: u64, pub trace_hash: u64, pub sched_hash: u64, pub sim_ns: u64,
    pub nthreads: u32, pub nfsops: u32, pub fired: [u64; fk::MAX], pub new_guards: u32,
    pub foreign_opens: u64, pub nevents: u64, pub dec_overflow: bool,
    pub decisions: Vec<Decision>, pub faults: Vec<Fault>, pub fsops: Vec<FsOp>, pub events: Vec<Event>,
    pub futex_waits: u64,
}

#[derive(Serialize, Deserialize)]
enum Res<R> { Ok(R), Panic(String) }

struct Job<F> { f: Option<F> }
extern "C" fn trampoline<R: Serialize, F: FnOnce() -> R>(arg: *mut c_void) {
    let job = unsafe { &mut *(arg as *mut Job<F>) };
    let f = job.f.take().unwrap();
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    let r: Res<R> = match r {
        Ok(r) => Res::Ok(r),
        Err(p) => {
            unsafe { sim_mark_panic() };
            let s = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
            Res::Panic(s)
        }
    };
    let v = serde_json::to_vec(&r).unwrap();
    unsafe { sim_set_result(v.as_ptr(), v.len() as u64) };
}

/// Run `f` as one simulated process. `replay`: decisions to follow instead of
/// the seeded policy.
pub fn run_phase<R: Serialize + DeserializeOwned, F: FnOnce() -> R>(cfg: &Cfg, faults: &[Fault], replay: Option<&[Decision]>, f: F) -> Phase<R> {
    let m = shm();
    m.cfg = *cfg;
    let nf = faults.len().min(MAX_FAULTS);
    m.faults_in[..nf].copy_from_slice(&faults[..nf]);
    m.cfg.nfaults = nf as u32;
    m.cfg.replay = 0; m.cfg.ndec = 0;
    if let Some(d) = replay {
        let n = d.len().min(MAX_DECISIONS);
        m.dec_in[..n].copy_from_slice(&d[..n]);
        m.cfg.ndec = n as u32; m.cfg.replay = 1;
    }
    let mut job = Job { f: Some(f) };
    let r = unsafe { sim_phase(trampoline::<R, F>, &mut job as *mut _ as *mut c_void) };
    std::mem::forget(job); // ran in the child only
    let st = &m.st;
    let mut out: Phase<R> = Phase {
        outcome: match r {
            1 => Outcome::Returned, 2 => Outcome::Exit(st.code), 3 => Outcome::Crash, 4 => Outcome::Deadlock, 5 => Outcome::StepLimit,
            6 => Outcome::Abort, 7 => Outcome::Signal(st.signal), 8 => Outcome::CpuLimit, _ => Outcome::Harness,
        },
        result: None, panic: None,
        stderr: String::from_utf8_lossy(&m.err[..st.stderr_len as usize]).into_owned(),
        stdout: m.out[..st.stdout_len as usize].to_vec(),
        note: String::from_utf8_lossy(&st.note[..st.note.iter().position(|b| *b == 0).unwrap_or(256)]).into_owned(),
        points: st.points, switches: st.switches, trace_hash: st.trace_hash, sched_hash: st.sched_hash, sim_ns: st.sim_ns,
        nthreads: st.nthreads, nfsops: st.nfsops, fired: st.fired, new_guards: st.new_guards, foreign_opens: st.foreign_opens,
        nevents: st.nevents, dec_overflow: st.dec_overflow != 0,
        decisions: m.dec_out[..st.ndec_out as usize].to_vec(), faults: m.faults_out[..st.nfaults_out as usize].to_vec(),
        fsops: m.fsops[..(st.nfsops as usize).min(MAX_FSOPS)].to_vec(), events: m.events[..(st.nevents as usize).min(MAX_EVENTS)].to_vec(),
        futex_waits: st.futex_waits,
    };
    if out.outcome == Outcome::Returned {
        match serde_json::from_slice::<Res<R>>(&m.result[..st.result_len as usize]) {
            Ok(Res::Ok(r)) => out.result = Some(r),
            Ok(Res::Panic(s)) => { out.outcome = Outcome::Panic; out.panic = Some(s); }
            Err(e) => { out.outcome = Outcome::Harness; out.note = format!("bad result: {e}"); }
        }
    }
    out
}
