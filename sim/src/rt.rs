//! Rust side of the deterministic scheduler runtime (c/dsim.c) and the allocator (c/alloc.c).
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout};

#[repr(C)]
#[derive(Clone, Copy)]
pub struct CCfg {
    pub sched_seed: u64,
    pub entropy_seed: u64,
    pub strategy: u32,
    pub param: u32,
    pub max_steps: u64,
    pub spurious_pm: u32,
    pub eintr_pm: u32,
    pub short_pm: u32,
    pub pad: u32,
    pub fail_at: i64,
    pub fail_len: i64,
    pub biased: u32,
    pub clock_jump_pm: u32,
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Stat {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub blocks: u64,
    pub wakes: u64,
    pub spurious: u64,
    pub spawns: u64,
    pub joins: u64,
    pub yields: u64,
    pub sleeps: u64,
    pub entropy_calls: u64,
    pub eintr: u64,
    pub shorts: u64,
    pub fails: u64,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub hash: u64,
    pub max_live: u64,
    pub contended: u64,
    pub simns: u64,
    pub hot_hits: u64,
}

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Sw {
    pub tid: u32,
    pub next: u32,
    pub step: u64,
}

extern "C" {
    fn dsim_start(c: *const CCfg, ex: *const Sw, nex: u32, cb: extern "C" fn(i32));
    fn dsim_stop();
    fn dsim_stats(o: *mut Stat);
    fn dsim_switches(o: *mut *const Sw) -> u32;
    fn dsim_yield();
    fn dsim_nopreempt(d: i32);
    fn dsim_tid() -> i32;
    fn dsim_seq() -> u64;
    fn dsim_entropy_calls() -> u64;
    fn dsim_set_fail(at: i64, len: i64);
    fn dsim_edges() -> u32;
    fn dsim_race(o: *mut u64);
    fn dsim_machine(cpus: u32, pid: u32, host: u32);
    fn dsim_malloc(n: usize, a: usize) -> *mut u8;
    fn dsim_calloc(n: usize, a: usize) -> *mut u8;
    fn dsim_free(p: *mut u8, n: usize);
    fn dsim_alloc_on(cb: extern "C" fn(i32));
    fn dsim_alloc_off();
    fn dsim_alloc_sweep();
}

/// Seeds and rates of one simulated execution.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Sched {
    pub sched_seed: u64,
    pub entropy_seed: u64,
    /// 0 random walk, 1 priority with change points, 2 cooperative, 3 hot edges, 4 starve one thread, 5 explicit
    pub strategy: u32,
    pub param: u32,
    pub max_steps: u64,
    pub spurious_pm: u32,
    pub eintr_pm: u32,
    pub short_pm: u32,
    pub biased: u32,
    pub clock_jump_pm: u32,
}

impl Default for Sched {
    fn default() -> Self {
        Sched {
            sched_seed: 1,
            entropy_seed: 1,
            strategy: 2,
            param: 0,
            max_steps: 6_000_000_000,
            spurious_pm: 0,
            eintr_pm: 0,
            short_pm: 0,
            biased: 0,
            clock_jump_pm: 0,
        }
    }
}

/// The machine this simulated process believes to run on.
pub fn machine(cpus: u32, pid: u32, host: u32) {
    unsafe { dsim_machine(cpus, pid, host) }
}
pub fn start(s: &Sched, explicit: &[(u32, u32, u64)], cb: extern "C" fn(i32)) {
    let c = CCfg {
        sched_seed: s.sched_seed,
        entropy_seed: s.entropy_seed,
        strategy: s.strategy,
        param: s.param,
        max_steps: s.max_steps,
        spurious_pm: s.spurious_pm,
        eintr_pm: s.eintr_pm,
        short_pm: s.short_pm,
        pad: 0,
        fail_at: -1,
        fail_len: 0,
        biased: s.biased,
        clock_jump_pm: s.clock_jump_pm,
    };
    let mut ex: Vec<Sw> = explicit.iter().map(|&(tid, next, step)| Sw { tid, next, step }).collect();
    ex.sort_by_key(|e| (e.tid, e.step));
    let ex: &'static [Sw] = Box::leak(ex.into_boxed_slice());
    unsafe {
        dsim_alloc_on(cb);
        dsim_start(&c, ex.as_ptr(), ex.len() as u32, cb)
    }
}
pub fn stop() {
    unsafe {
        dsim_stop();
        dsim_alloc_sweep();
        dsim_alloc_off();
    }
}
pub fn stats() -> Stat {
    let mut s = Stat::default();
    unsafe { dsim_stats(&mut s) };
    s
}
pub fn switches() -> Vec<(u32, u32, u64)> {
    let mut p: *const Sw = std::ptr::null();
    let n = unsafe { dsim_switches(&mut p) };
    (0..n as usize).map(|i| unsafe { *p.add(i) }).map(|s| (s.tid, s.next, s.step)).collect()
}
pub fn point() {
    unsafe { dsim_yield() }
}
pub fn tid() -> i32 {
    unsafe { dsim_tid() }
}
pub fn seq() -> u64 {
    unsafe { dsim_seq() }
}
pub fn entropy_calls() -> u64 {
    unsafe { dsim_entropy_calls() }
}
/// Let the `at`-th system entropy request from now on (and `len - 1` after it) fail; negative: none.
pub fn set_fail(at: i64, len: i64) {
    unsafe { dsim_set_fail(at, len) }
}
/// Whether this is the flavour that judges data races.
pub const RACE: bool = option_env!("DSIM_RACE").is_some();
pub fn race_stats() -> [u64; 10] {
    let mut o = [0u64; 10];
    unsafe { dsim_race(o.as_mut_ptr()) };
    o
}
/// The data race just found, code addresses relative to the start of the program.
pub fn race() -> String {
    let o = race_stats();
    let kind = |f: u64| match (f & 4, f & 2, f & 1) { (4, _, _) => "release of memory", (_, 2, 1) => "atomic write", (_, 2, _) => "atomic read", (_, _, 1) => "write", _ => "read" };
    format!("{} by thread {} at code {:#x} and {} by thread {} at code {:#x} are not ordered", kind(o[5]), o[3], o[1], kind(o[6]), o[4], o[2])
}
pub fn edges() -> u32 {
    unsafe { dsim_edges() }
}

/// No preemption while held: harness bookkeeping is not part of the simulated program.
pub struct Quiet;
pub fn quiet() -> Quiet {
    unsafe { dsim_nopreempt(1) };
    Quiet
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe { dsim_nopreempt(-1) }
    }
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        dsim_malloc(l.size(), l.align())
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        dsim_calloc(l.size(), l.align())
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        dsim_free(p, l.size())
    }
}
