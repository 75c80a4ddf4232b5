//! P03 / P04: the process-wide transform table caches under concurrent first use and failed requests.
use super::{PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fields::*;
use crate::rg::Rg;
use crate::rt;
use crate::with_field;
use algebra::transformation::{AbstractNTT, MonomialNTT};
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

const FIELDS: i64 = 12;

/// Results of completed calls: (field, log_n) -> (completion sequence number, address, root).
#[derive(Default)]
struct Hist {
    first: BTreeMap<(i64, u32), (u64, usize, u64)>,
    roots: BTreeMap<(i64, u32), u64>,
    /// tables of every field are kept alive here so that an address identifies a table
    held: Vec<Box<dyn std::any::Any + Send>>,
}
type Shared = Arc<Mutex<Hist>>;

/// Sizes a field supports, as far as the simulation uses them.
fn cap<F: Fx>() -> u32 {
    max_log::<F>().min(10)
}

/// The table transforms correctly: against the definition, without using any of the library's arithmetic.
pub fn table_works<F: Fx>(t: &F::Table, log_n: u32, seed: u64, what: &str) -> bool {
    let mut r = Rg::new(seed);
    let n = 1usize << log_n;
    let q = F::q();
    let psi = AbstractNTT::root(t).u();
    let qt = rt::quiet();
    if !ctx::check(powm(psi, n as u64, q) == q - 1, "bad-root", || format!("{what}: {} n={n} root {psi}", F::NAME)) {
        return false;
    }
    let a = edge_vec(&mut r, n, q);
    let mut v: Vec<F> = a.iter().map(|&x| F::f(x)).collect();
    drop(qt);
    t.transform_slice(&mut v);
    let qt = rt::quiet();
    // spot check: bit-reversed order, value i is a(psi^(2*rev(i)+1))
    for _ in 0..2 {
        let i = r.below(n as u64) as usize;
        let rev = if log_n == 0 { 0 } else { (i as u64).reverse_bits() >> (64 - log_n) };
        let x = powm(psi, 2 * rev + 1, q);
        let mut want = 0;
        for &c in a.iter().rev() {
            want = addm(mulm(want, x, q), c, q);
        }
        if !ctx::check(v[i].u() == want, "bad-transform", || {
            format!("{what}: {} n={n} value {i} is {} instead of {want}", F::NAME, v[i].u())
        }) {
            return false;
        }
    }
    let b = edge_vec(&mut r, n, q);
    let mut w: Vec<F> = b.iter().map(|&x| F::f(x)).collect();
    drop(qt);
    t.transform_slice(&mut w);
    let qt = rt::quiet();
    let mut p: Vec<F> = v.iter().zip(&w).map(|(x, y)| F::f(mulm(x.u(), y.u(), q))).collect();
    drop(qt);
    t.inverse_transform_slice(&mut v);
    if !ctx::check(us(&v) == a, "bad-inverse", || format!("{what}: {} n={n} inverse(transform(a)) != a", F::NAME)) {
        return false;
    }
    if n <= 128 {
        t.inverse_transform_slice(&mut p);
        if !ctx::check(us(&p) == negacyclic(&a, &b, q), "bad-product", || format!("{what}: {} n={n} product", F::NAME)) {
            return false;
        }
    }
    let d = match r.below(4) { 0 => n, 1 => 2 * n - 1, _ => r.below(2 * n as u64) as usize };
    let c = match r.below(4) { 0 => 1, 1 => q - 1, _ => edge_val(&mut r, q) };
    let mut m = vec![F::f(1); n];
    t.transform_monomial(F::f(c), d, &mut m);
    t.inverse_transform_slice(&mut m);
    let mut want = vec![0; n];
    want[d % n] = if d >= n { negm(c, q) } else { c };
    ctx::check(us(&m) == want, "bad-monomial", || format!("{what}: {} n={n} monomial {c} X^{d}", F::NAME))
}

fn observed<F: Fx>(h: &Shared, fi: i64, log_n: u32, start: u64, t: Arc<F::Table>)
where
    F::Table: Send + Sync + 'static,
{
    let root = AbstractNTT::root(&*t).u();
    let addr = Arc::as_ptr(&t) as *const u8 as usize;
    let _q = rt::quiet();
    let mut h = h.lock().unwrap();
    let seq = rt::seq();
    match h.first.get(&(fi, log_n)) {
        Some(&(done, a, _)) => {
            if done < start && a != addr {
                ctx::fail("table-replaced", format!("{} log_n={log_n}: a second table replaced one already in use", F::NAME));
            }
        }
        None => {
            h.first.insert((fi, log_n), (seq, addr, root));
        }
    }
    let r0 = *h.roots.entry((fi, log_n)).or_insert(root);
    if r0 != root {
        ctx::fail("table-differs", format!("{} log_n={log_n}: tables with different roots {r0} and {root}", F::NAME));
    }
    h.held.push(Box::new(t));
}

fn get<F: Fx>(h: &Shared, fi: i64, log_n: u32, seed: u64, probe: bool)
where
    F::Table: Send + Sync + 'static,
{
    let start = rt::seq();
    match ctx::must(&format!("get_ntt_table {} {log_n}", F::NAME), || F::get_ntt_table(log_n)) {
        None => {}
        Some(Err(e)) => ctx::fail("supported-refused", format!("{} log_n={log_n}: {e}", F::NAME)),
        Some(Ok(t)) => {
            if probe {
                ctx::must("transform", || table_works::<F>(&t, log_n, seed, "table"));
            }
            ctx::event("got", &[fi as u64, log_n as u64, AbstractNTT::root(&*t).u()]);
            observed::<F>(h, fi, log_n, start, t);
        }
    }
}

fn bad<F: Fx>(fi: i64, log_n: u32) {
    ctx::count("fault unsupported table request", 1);
    match ctx::must(&format!("get_ntt_table {} {log_n}", F::NAME), || F::get_ntt_table(log_n).map(|_| ())) {
        None => {}
        Some(Ok(())) => ctx::fail("unsupported-accepted", format!("{} log_n={log_n}", F::NAME)),
        Some(Err(_)) => ctx::event("refused", &[fi as u64, log_n as u64]),
    }
}

fn init<F: Fx>(fi: i64, logs: &[u32], expect_err: bool) {
    if expect_err {
        ctx::count("fault batch with an unsupported size", 1);
    }
    match ctx::must(&format!("init_ntt_table {} {logs:?}", F::NAME), || F::init_ntt_table(logs)) {
        None => {}
        Some(r) => {
            ctx::check(r.is_err() == expect_err, if expect_err { "unsupported-accepted" } else { "supported-refused" }, || {
                format!("{} init {logs:?}: {:?}", F::NAME, r.as_ref().err().map(|e| e.to_string()))
            });
            ctx::event("init", &[fi as u64, logs.len() as u64, r.is_err() as u64]);
        }
    }
}

/// An unsupported size: slightly too large, much too large, absurd.
fn too_large<F: Fx>(a: i64) -> u32 {
    let m = max_log::<F>();
    match a.rem_euclid(7) {
        0 => m + 1,
        1 => m + 2,
        2 => 31.max(m + 1),
        3 => 32.max(m + 3),
        4 => 63,
        5 => 64,
        _ => u32::MAX,
    }
}

fn lo(c: &Case) -> u32 {
    c.get("minlog").clamp(0, 1) as u32
}

fn run_op<F: Fx>(c: &Case, o: &Op, h: &Shared, fi: i64)
where
    F::Table: Send + Sync + 'static,
{
    let (m, l) = (cap::<F>(), lo(c));
    let size = |a: i64| l + a.rem_euclid((m - l + 1) as i64) as u32;
    let seed = o.arg(4) as u64;
    match o.k.as_str() {
        "get" => get::<F>(h, fi, size(o.arg(2)), seed, o.arg(3) & 1 == 0),
        "bad" => {
            for _ in 0..1 + o.arg(3).clamp(0, 3000) {
                bad::<F>(fi, too_large::<F>(o.arg(2)));
                if ctx::failed() {
                    break;
                }
            }
        }
        "often" => {
            // one size asked for again and again
            let log = size(o.arg(2));
            get::<F>(h, fi, log, seed, true);
            let addr = h.lock().unwrap().first.get(&(fi, log)).map(|x| x.1);
            let times = o.arg(3).clamp(0, 70_000);
            for k in 0..times {
                match F::get_ntt_table(log) {
                    Ok(t) if Some(Arc::as_ptr(&t) as *const u8 as usize) == addr => {}
                    Ok(_) => return ctx::fail("table-replaced", format!("{} log_n={log}: request {k} was given another table", F::NAME)),
                    Err(e) => return ctx::fail("supported-refused", format!("{} log_n={log}, request {k}: {e}", F::NAME)),
                }
            }
            ctx::count("requests in long sessions", times as u64);
        }
        "sizes" => {
            // more sizes of one field than any other run asks for, twice, in two orders
            let top = max_log::<F>().min(o.arg(2).clamp(0, 20) as u32);
            let mut r = Rg::new(seed);
            for round in 0..2 {
                let mut logs: Vec<u32> = (l..=top.max(l)).collect();
                for i in 0..logs.len() {
                    let j = i + r.below((logs.len() - i) as u64) as usize;
                    logs.swap(i, j);
                }
                if round == 0 && o.arg(3) & 1 == 1 {
                    init::<F>(fi, &logs, false);
                }
                for log in logs {
                    get::<F>(h, fi, log, seed ^ log as u64, round == 1 && (log < 12 || r.chance(250)));
                    if ctx::failed() {
                        return;
                    }
                }
            }
            ctx::max("max sizes of one field", (top + 1 - l) as u64);
        }
        "init" | "initbad" => {
            let mut logs: Vec<u32> = vec![];
            for b in 0..m + 1 {
                if o.arg(2) >> b & 1 == 1 {
                    logs.push(size(b as i64));
                    if o.arg(3) >> b & 1 == 1 {
                        logs.push(size(b as i64));
                    }
                }
            }
            let isbad = o.k == "initbad";
            if isbad {
                let at = o.idx(5, logs.len() + 1);
                logs.insert(at, too_large::<F>(o.arg(6)));
            }
            init::<F>(fi, &logs, isbad);
            if !isbad && o.arg(7) & 1 == 0 {
                for &x in logs.iter().take(2) {
                    get::<F>(h, fi, x, seed, false);
                }
            }
        }
        "mul" => {
            // the implicit lookup inside polynomial multiplication
            let log = 1.max(size(o.arg(2)).min(6));
            let mut r = Rg::new(seed);
            let n = 1usize << log;
            let (a, b) = (edge_vec(&mut r, n, F::q()), edge_vec(&mut r, n, F::q()));
            if let Some(p) = ctx::must("polynomial product", || poly::<F>(&a) * poly::<F>(&b)) {
                ctx::check(coeffs(&p) == negacyclic(&a, &b, F::q()), "bad-product", || format!("{} n={n}", F::NAME));
                ctx::event("mul", &[fi as u64, log as u64]);
            }
        }
        "recheck" => {
            // a table obtained earlier by some thread still works
            ctx::event("recheck", &[]);
            let t = {
                let _q = rt::quiet();
                let g = h.lock().unwrap();
                let i = o.idx(2, g.held.len());
                g.held.get(i).and_then(|t| t.downcast_ref::<Arc<F::Table>>().cloned())
            };
            if let Some(t) = t {
                let mut v = vec![F::f(1); 1];
                // size of the table is not part of its interface: find it from its root
                let (psi, q) = (AbstractNTT::root(&*t).u(), F::q());
                let mut log = 0;
                while powm(psi, 1 << log, q) != q - 1 && log < 20 {
                    log += 1;
                }
                v.clear();
                ctx::must("transform", || table_works::<F>(&t, log, seed, "held table"));
            }
        }
        _ => {}
    }
}

fn exec(c: &Case) {
    let h: Shared = Default::default();
    let nt = c.get("threads").clamp(1, 40) as usize;
    let mut hs = vec![];
    let body = {
        let (c, h) = (c.clone(), h.clone());
        Arc::new(move |me: usize| {
            for o in &c.ops {
                if o.idx(0, nt) == me {
                    let fi = o.arg(1).rem_euclid(FIELDS);
                    with_field!(fi, F => run_op::<F>(&c, o, &h, fi));
                    ctx::state(&[me as u64, fi as u64, o.arg(2) as u64]);
                }
            }
        })
    };
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::spawn(move || b(t)));
    }
    body(0);
    for j in hs {
        if j.join().is_err() {
            ctx::fail("panic", "a thread that requested tables panicked");
        }
    }
    // afterwards: everything is usable, and what was handed out has not changed
    ctx::event("final", &[]);
    for fi in 0..FIELDS {
        if c.ops.iter().any(|o| o.arg(1).rem_euclid(FIELDS) == fi) {
            with_field!(fi, F => {
                for l in [lo(c), lo(c) + 1, cap::<F>() / 2, cap::<F>().min(8)] {
                    get::<F>(&h, fi, l.max(lo(c)).min(cap::<F>()), 99 + l as u64, true);
                }
                if c.prop == "P04" {
                    bad::<F>(fi, too_large::<F>(0));
                }
            });
        }
    }
    if nt > 1 {
        ctx::nontrivial();
    }
    let n = h.lock().unwrap().first.len();
    ctx::max("max tables created in one run", n as u64);
}

fn gen_ops(r: &mut Rg, c: &mut Case, faults: bool) {
    let nt = c.get("threads") as u64;
    let nf = 1 + r.below(3);
    let fs: Vec<i64> = (0..nf).map(|_| r.below(FIELDS as u64) as i64).collect();
    let n = nt + r.below(4 * nt + 4);
    let hot = r.below(11) as i64;
    let maxlog = 1 + r.below(10) as i64;
    let mask = |r: &mut Rg| {
        let b = 1 + r.below(maxlog as u64);
        r.below(1 << b) as i64
    };
    for i in 0..n {
        let t = if i < nt { i as i64 } else { r.below(nt) as i64 };
        let f = *r.pick(&fs);
        let size = if r.chance(300) { hot } else { r.below(maxlog as u64 + 1) as i64 };
        let seed = r.below(1 << 30) as i64;
        match r.below(if faults { 12 } else { 8 }) {
            0..=4 => c.op("get", &[t, f, size, r.below(3) as i64, seed]),
            5..=6 => c.op("init", &[t, f, mask(r), r.below(1024) as i64, seed, 0, 0, r.below(2) as i64]),
            7 => {
                if r.chance(500) {
                    c.op("mul", &[t, f, size, 0, seed])
                } else {
                    c.op("recheck", &[t, f, r.below(8) as i64, 0, seed])
                }
            }
            8..=9 => c.op("bad", &[t, f, r.below(7) as i64]),
            _ => c.op("initbad", &[t, f, mask(r), r.below(64) as i64, seed, r.below(12) as i64, r.below(7) as i64, 1]),
        }
    }
}

fn gen_p03(r: &mut Rg, _i: u64, tier: &str) -> Case {
    let mut c = Case::new("P03");
    let usual = 2 + r.below(if tier == "thorough" { 8 } else { 5 });
    let nt = r.crowd(usual);
    c.set("threads", nt);
    c.set("minlog", 0);
    c.sched = gen_sched(r, 18, true);
    gen_ops(r, &mut c, false);
    if r.chance(10) {
        let t = r.below(nt as u64) as i64;
        c.op("often", &[t, r.below(FIELDS as u64) as i64, r.below(6) as i64, *r.pick(&[300, 1100, 67_000]), r.below(1 << 30) as i64]);
    }
    if r.chance(25) {
        let t = r.below(nt as u64) as i64;
        let top = if r.chance(40) { 20 } else { 11 + r.below(5) as i64 };
        c.op("sizes", &[t, r.below(FIELDS as u64) as i64, top, r.below(2) as i64, r.below(1 << 30) as i64]);
    }
    c
}
fn gen_p04(r: &mut Rg, i: u64, _tier: &str) -> Case {
    let mut c = Case::new("P04");
    let usual = if i % 3 == 0 { 1 } else { 2 + r.below(4) };
    let nt = r.crowd(usual);
    c.set("threads", nt);
    c.sched = gen_sched(r, 17, true);
    gen_ops(r, &mut c, true);
    if r.chance(10) {
        let at = r.below(c.ops.len() as u64) as usize;
        let f = c.ops[at].arg(1);
        let a = vec![r.below(nt as u64) as i64, f, r.below(7) as i64, *r.pick(&[20, 150, 300, 1100])];
        c.ops.insert(at, Op { k: "bad".into(), a });
    }
    c
}

pub static P03: PropDef = PropDef {
    id: "P03",
    neighbour: false,
    gen: gen_p03,
    exec,
    outer: None,
    runs_quick: 12000,
    runs_thorough: 60000,
    race: 6000,
    rule: "a run is nontrivial when at least two threads used the table caches; distinct by operation history and schedule",
    real: &["algebra (get_ntt_table, init_ntt_table, NTTTable, polynomial products)", "algebra_derive generated code", "std::sync, once_cell, std BTreeMap, rand thread_rng"],
    stub: STUB_OS,
    assumptions: &["executions are sequentially consistent; data races are judged by happens-before, so a wrong memory order on data shows, but outcomes only reordered atomics can produce do not"],
};
pub static P04: PropDef = PropDef {
    id: "P04",
    neighbour: false,
    gen: gen_p04,
    exec,
    outer: None,
    runs_quick: 12000,
    runs_thorough: 60000,
    race: 3000,
    rule: "a run is nontrivial when at least two threads used the table caches; distinct by operation history and schedule",
    real: P03.real,
    stub: STUB_OS,
    assumptions: &["executions are sequentially consistent; data races are judged by happens-before"],
};
