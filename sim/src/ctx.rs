//! What one simulated execution records: verdict, history hash, counters.  No clock, no entropy.
use crate::rt;
use std::cell::UnsafeCell;
use std::collections::BTreeMap;

#[derive(Default)]
pub struct Ctx {
    pub fail: Option<(String, String)>,
    pub counters: BTreeMap<String, u64>,
    pub hash: u64,
    pub events: u64,
    pub nontrivial: bool,
    pub samples: Vec<String>,
    pub trace: Vec<String>,
    pub tracing: bool,
    pub last_panic: String,
    pub states: std::collections::BTreeSet<u64>,
    /// results to be compared with another process
    pub outs: BTreeMap<String, u64>,
}
struct Cell(UnsafeCell<Option<Ctx>>);
// only the token holder runs, and `quiet` keeps the token
unsafe impl Sync for Cell {}
static CTX: Cell = Cell(UnsafeCell::new(None));

pub fn init(tracing: bool) {
    unsafe { *CTX.0.get() = Some(Ctx { hash: 0x1234_5678_9abc_def1, tracing, ..Default::default() }) }
}
pub fn with<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _q = rt::quiet();
    unsafe { f((*CTX.0.get()).get_or_insert_with(Ctx::default)) }
}
pub fn take() -> Ctx {
    unsafe { (*CTX.0.get()).take().unwrap_or_default() }
}
/// Record a violation (the first one counts).
pub fn fail(class: &str, msg: impl Into<String>) {
    let m = msg.into();
    with(|c| {
        if c.tracing {
            c.trace.push(format!("t{} VIOLATION {class}: {m}", rt::tid()));
        }
        if c.fail.is_none() {
            c.fail = Some((class.to_string(), m));
        }
    })
}
pub fn failed() -> bool {
    with(|c| c.fail.is_some())
}
pub fn check(ok: bool, class: &str, msg: impl FnOnce() -> String) -> bool {
    if !ok {
        fail(class, msg());
    }
    ok
}
pub fn count(k: &str, n: u64) {
    with(|c| match c.counters.get_mut(k) {
        Some(v) => *v += n,
        None => {
            c.counters.insert(k.to_string(), n);
        }
    })
}
pub fn max(k: &str, n: u64) {
    with(|c| {
        let e = c.counters.entry(k.to_string()).or_insert(0);
        if n > *e {
            *e = n
        }
    })
}
pub fn nontrivial() {
    with(|c| c.nontrivial = true)
}
pub fn sample(s: impl Into<String>) {
    let s = s.into();
    with(|c| {
        if c.samples.len() < 4 {
            c.samples.push(s)
        }
    })
}
pub fn mix(h: &mut u64, v: u64) {
    *h = crate::rg::mix64(*h ^ v);
}
/// Append an event to the recorded history.
pub fn event(tag: &str, vals: &[u64]) {
    with(|c| {
        c.events += 1;
        let mut h = c.hash ^ crate::rg::hash_str(tag);
        for &v in vals {
            mix(&mut h, v);
        }
        mix(&mut h, rt::tid() as u64);
        c.hash = h;
        if c.tracing && c.trace.len() < 4000 {
            let v = if vals.len() > 12 { format!("{:?}..({})", &vals[..12], vals.len()) } else { format!("{vals:?}") };
            c.trace.push(format!("t{} @{} {tag} {v}", rt::tid(), rt::seq()));
        }
    })
}
/// A result another process must also get.
pub fn out(label: String, v: u64) {
    with(|c| {
        c.outs.insert(label, v);
    })
}
/// Abstract state reached (for the evidence).
pub fn state(v: &[u64]) {
    with(|c| {
        if c.states.len() < 4096 {
            let mut h = 7u64;
            for &x in v {
                mix(&mut h, x);
            }
            c.states.insert(h);
        }
    })
}
pub fn digest(vals: impl IntoIterator<Item = u64>) -> u64 {
    let mut h = 0x9876_5432u64;
    for v in vals {
        h = (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    crate::rg::mix64(h)
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "(payload)".into());
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        with(|c| c.last_panic = format!("{m} at {l}"));
    }));
}
/// Run something that may panic; the panic is returned as its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(with(|c| std::mem::take(&mut c.last_panic))),
    }
}
/// Run something that must not panic.
pub fn must<R>(what: &str, f: impl FnOnce() -> R) -> Option<R> {
    match guard(f) {
        Ok(r) => Some(r),
        Err(m) => {
            fail("panic", format!("{what} panicked: {m}"));
            None
        }
    }
}
