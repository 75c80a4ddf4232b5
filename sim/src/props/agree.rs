//! P11: the same seeded work in several simulated processes that differ in everything else.
use super::faults::gen_task;
use super::tasks::*;
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::driver::{in_child, RunResult};
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::with_field;
use algebra::NTTField;
use std::sync::Arc;

fn shuffle<T>(r: &mut Rg, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
}

fn exec(c: &Case) {
    let p = c.get("proc");
    let mut r = Rg::new(mix64(c.get("world") as u64 ^ mix64(p as u64)));
    let nt = if p == 0 { 1 + c.get("threads").rem_euclid(4) as usize } else { 1 + r.below(4) as usize };
    let pool = 1 + r.below(4) as usize;
    // another machine: processors, names, environment, where memory lies
    let cpus = *r.pick(&[1u32, 2, 3, 4, 6, 8, 16, 48, 64]);
    crate::rt::machine(cpus, 2 + r.below(1 << 22) as u32, r.below(1000) as u32);
    {
        let _q = crate::rt::quiet();
        let threads = [1u64, 2, 3, 5, 8, 64][r.below(6) as usize].to_string();
        for k in ["RAYON_NUM_THREADS", "OMP_NUM_THREADS", "NUM_CPUS"] {
            if r.chance(500) { std::env::set_var(k, &threads) } else { std::env::remove_var(k) }
        }
        for (k, v) in [("HOSTNAME", "host"), ("USER", "user"), ("HOME", "/home/user"), ("TZ", "UTC+"), ("LANG", "l"), ("RUST_BACKTRACE", "")] {
            std::env::set_var(k, format!("{v}{}", r.below(2)));
        }
        let mut junk: Vec<u8> = Vec::with_capacity(r.below(1 << 16) as usize + 1);
        junk.push(1);
        std::mem::forget(junk);
    }
    let _ = rayon::ThreadPoolBuilder::new().num_threads(pool).build_global();
    // (label, op, executing thread)
    let mut work: Vec<(usize, Op, usize)> =
        c.ops.iter().enumerate().map(|(i, o)| (i, o.clone(), if p == 0 { o.arg(0).rem_euclid(nt as i64) as usize } else { r.below(nt as u64) as usize })).collect();
    if p > 0 {
        shuffle(&mut r, &mut work);
        if r.chance(200) {
            // this process is killed after some of the work
            let k = 1 + r.below(work.len().max(1) as u64) as usize;
            if k < work.len() {
                ctx::count("fault process cut short", 1);
            }
            work.truncate(k);
        }
    }
    // sizes looked up and entropy drawn before the work starts
    let warm: Vec<(usize, Op)> = (0..if p == 0 { 0 } else { r.below(6) })
        .map(|_| {
            let fam = *r.pick(&[0, 1, 1]);
            let (k, a) = gen_task(&mut r, fam, 4);
            (a[0] as usize % nt, Op { k, a })
        })
        .collect();
    ctx::event("process", &[p as u64, nt as u64, pool as u64, cpus as u64, warm.len() as u64, work.len() as u64]);
    ctx::count("unrelated operations before the work", warm.len() as u64);
    let (c2, w2) = (Arc::new(c.clone()), work.clone());
    team(nt, move |me| {
        for (t, o) in &warm {
            if *t == me {
                ctx::must("warm-up", || task(&c2, o, &mut SimRng::new(mix64(o.arg(1) as u64))));
            }
        }
        for (i, o, t) in &w2 {
            if *t != me || ctx::failed() {
                continue;
            }
            let mut rng = SimRng::new(mix64(o.arg(1) as u64));
            if let Some(v) = ctx::must(&format!("op {i} {}", o.k), || task(&c2, o, &mut rng)) {
                let d = digest(&v);
                ctx::event("result", &[*i as u64, d, rng.draws]);
                ctx::out(format!("op {i}"), d);
                ctx::out(format!("op {i} draws"), if uses_rng(&o.k) { rng.draws } else { 0 });
            }
        }
    });
    if ctx::failed() {
        return;
    }
    // the same work again in the same process, now that everything has been used
    for (i, o, _) in work.iter().take(2) {
        if let Some(v) = ctx::must("repeated op", || task(c, o, &mut SimRng::new(mix64(o.arg(1) as u64)))) {
            ctx::out(format!("op {i} attempt 2"), digest(&v));
        }
    }
    // tables of every size, whatever the order of first use
    for fi in [c.get("field"), c.get("field") + c.get("field2")] {
        let mut ls: Vec<u32> = (0..=6).collect();
        shuffle(&mut r, &mut ls);
        with_field!(fi, F => {
            for l in ls {
                if l > max_log::<F>() { continue }
                if let Some(Ok(t)) = ctx::must("table", || F::get_ntt_table(l)) {
                    let v: Vec<u64> = (0..1u64 << l).map(|i| i * i % F::q()).collect();
                    let mut d = us(algebra::transformation::AbstractNTT::transform(&*t, &poly::<F>(&v)).as_slice());
                    d.push(algebra::transformation::AbstractNTT::root(&*t).u());
                    ctx::out(format!("table {} {l}", F::NAME), digest(&d));
                }
            }
        });
    }
}

fn outer(c: &Case) -> RunResult {
    let n = 2 + c.get("procs").rem_euclid(3);
    let mut first: Option<RunResult> = None;
    let mut hist = 0;
    let mut compared = 0;
    for p in 0..n {
        let mut q = c.clone();
        q.set("proc", p);
        if p > 0 {
            let mut r = Rg::new(mix64(c.sched.sched_seed ^ p as u64));
            q.explicit.clear();
            let step = c.sched.max_steps;
            q.sched = gen_sched(&mut r, 20, true);
            q.sched.max_steps = step;
        }
        let mut x = in_child(&q, exec);
        ctx::mix(&mut hist, x.hist);
        if x.class.is_some() || x.inconclusive {
            x.msg = format!("process {p}: {}", x.msg);
            return x;
        }
        match first.as_mut() {
            None => {
                // results repeated within the first process
                for (k, v) in &x.outs {
                    if let Some(b) = k.strip_suffix(" attempt 2") {
                        if x.outs.get(b) != Some(v) {
                            x.class = Some("not-repeatable".into());
                            x.msg = format!("{k} differs within one process");
                            return x;
                        }
                    }
                }
                first = Some(x)
            }
            Some(f) => {
                let bad = x.outs.iter().find_map(|(k, v)| {
                    let w = f.outs.get(k.split(" attempt").next().unwrap())?;
                    compared += 1;
                    (v != w).then(|| format!("{k}: {v:016x} in process {p}, {w:016x} in process 0"))
                });
                for (k, v) in &x.counters {
                    *f.counters.entry(k.clone()).or_insert(0) += v;
                }
                f.states.extend(x.states.iter());
                f.stat.steps += x.stat.steps;
                f.stat.switches += x.stat.switches;
                f.stat.preemptions += x.stat.preemptions;
                f.stat.entropy_calls += x.stat.entropy_calls;
                f.stat.eintr += x.stat.eintr;
                f.stat.shorts += x.stat.shorts;
                f.stat.clock_jumps += x.stat.clock_jumps;
                f.stat.spurious += x.stat.spurious;
                if f.trace.len() < 4000 && !x.trace.is_empty() {
                    f.trace.push(format!("-- process {p}"));
                    f.trace.extend(x.trace.iter().cloned());
                }
                if let Some(m) = bad {
                    f.class = Some("processes-disagree".into());
                    f.msg = m;
                    break;
                }
            }
        }
    }
    let mut f = first.unwrap();
    f.hist = hist;
    f.nontrivial = compared >= 3;
    *f.counters.entry("results compared between processes".into()).or_insert(0) += compared;
    *f.counters.entry("processes".into()).or_insert(0) += n as u64;
    f
}

fn gen(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P11");
    gen_params(r, &mut c, true, true);
    let nt = r.below(4);
    c.set("threads", nt as i64);
    c.set("procs", r.below(3) as i64);
    c.set("world", r.below(1 << 40) as i64);
    c.set("field", r.below(12) as i64);
    c.set("field2", r.below(12) as i64);
    let heavy = i % 3 == 0;
    let nops = if heavy { 1 + r.below(4) } else { 1 + r.below(if tier == "thorough" { 24 } else { 12 }) };
    for _ in 0..nops {
        let fam = if heavy { *r.pick(&[0, 1, 2, 2, 2]) } else { *r.pick(&[0, 0, 1]) };
        let (k, a) = gen_task(r, fam, nt + 1);
        c.ops.push(Op { k, a });
    }
    c.sched = gen_sched(r, if heavy { 24 } else { 18 }, true);
    c
}

pub static P11: PropDef = PropDef {
    id: "P11",
    neighbour: false,
    gen,
    exec,
    outer: Some(outer),
    runs_quick: 9000,
    runs_thorough: 120000,
    race: 0,
    rule: "a run is nontrivial when at least three results of two processes were compared; distinct by history of every process, and by schedule of the first",
    real: &["algebra (tables, roots, samplers, generator, primality)", "lattice samplers", "fhe_core key generation, encryption, key switching and blind rotation keys", "bool evaluator and gates", "rayon", "rand's thread generator"],
    stub: STUB_OS,
    assumptions: &["simulated processes run the same build on the same machine; objects are compared by everything their Debug text shows and by the values they return"],
};
