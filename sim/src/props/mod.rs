//! Scenarios, one definition per property.
use crate::case::Case;
use crate::driver::RunResult;
use crate::rg::Rg;

pub struct PropDef {
    pub id: &'static str,
    /// whether runs may contain a second deployment with similar parameters
    pub neighbour: bool,
    pub gen: fn(&mut Rg, u64, &str) -> Case,
    pub exec: fn(&Case),
    pub outer: Option<fn(&Case) -> RunResult>,
    pub runs_quick: u64,
    pub runs_thorough: u64,
    /// runs of the race flavour in the quick tier, twenty times as many in the thorough one
    pub race: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

mod agree;
mod boot;
mod circuits;
mod faults;
mod fresh;
mod keys;
mod prg;
mod primes;
mod scratch;
mod session;
mod storage;
mod tables;
mod tasks;

pub const STUB_OS: &[&str] = &[
    "OS scheduler (one token holder at a time; seeded preemption at compiler-inserted edges)",
    "futex wait/wake, thread create/exit/join, TLS destructors, sleep, clock, getrandom (simulated)",
    "heap: real memory, seeded poison on allocation and release, quarantine before reuse",
];

static ALL: &[&PropDef] = &[&agree::P11, &fresh::P15, &faults::P07, &session::P14, &scratch::P08, &boot::P12, &boot::P13, &circuits::P01, &circuits::P02, &keys::P05, &prg::P06, &storage::P09, &primes::P10, &tables::P03, &tables::P04];

pub fn find(id: &str) -> Option<&'static PropDef> {
    ALL.iter().copied().find(|d| d.id == id)
}

/// Run `body` for each thread number, the first one on the calling thread.
pub fn team(nt: usize, body: impl Fn(usize) + Send + Sync + 'static) {
    let body = std::sync::Arc::new(body);
    let mut hs = vec![];
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || b(t)).unwrap());
    }
    body(0);
    for h in hs {
        crate::ctx::check(h.join().is_ok(), "panic", || "a thread panicked".into());
    }
}
