//! P07: operations repeated after a failure of the randomness they draw, against a run without failures.
use super::tasks::*;
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::driver::{in_child, RunResult};
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::{with_cq, with_field};
use algebra::{AsInto, NTTField};
use fhe_core::LWEModulusType;
use std::sync::Arc;
use zkfhe::bfhe::Evaluator;

/// Keys every thread uses.
pub struct Shared {
    pub work: Box<dyn Fn(u64, &mut SimRng) -> Vec<u64> + Send + Sync>,
    pub look: Box<dyn Fn() -> u64 + Send + Sync>,
}
pub fn shared(p: Pg, seed: u64) -> Shared {
    fn make<C: LWEModulusType + 'static, Q: Fx>(p: Pg, seed: u64) -> Shared
    where
        u64: AsInto<C>,
    {
        let (sk, mut rng) = build::<C, Q>(&p, seed);
        let ev = Evaluator::<C, Q>::new(&sk, &mut rng);
        let g = p.gates_ok();
        let (sk, ev) = (Arc::new(sk), Arc::new(ev));
        let (sk2, ev2) = (sk.clone(), ev.clone());
        Shared {
            work: Box::new(move |x, rng| {
                let (a, b) = (sk.encrypt(x & 1 == 1, rng), sk.encrypt(x & 2 == 2, rng));
                let mut v = ctv(&a);
                v.extend(ctv(&b));
                if g && x & 4 == 4 {
                    v.extend(ctv(&ev.nand(&a, &b)));
                }
                v
            }),
            look: Box::new(move || ctx::digest(skv(&sk2).into_iter().chain([shown(&*ev2)]))),
        }
    }
    with_cq!(p.pair, C, Q => make::<C, Q>(p, seed))
}

fn once(c: &Case, o: &Op, sh: &Option<Shared>, rng: &mut SimRng) -> Vec<u64> {
    match (o.k.as_str(), sh) {
        ("shared", Some(s)) => (s.work)(mix64(o.arg(1) as u64) >> 8, rng),
        _ => task(c, o, rng),
    }
}

fn step(c: &Case, o: &Op, i: usize, sh: &Option<Shared>) {
    let seed = mix64(o.arg(1) as u64);
    let fails = || rt::stats().fails;
    if c.get("nofail") == 0 {
        for j in 0..1 + o.arg(9).rem_euclid(3) {
            // the same failure again, or one a little further on
            let at = o.arg(7).clamp(0, 1 << 40) as u64 + if j > 1 { 1 } else { 0 };
            let kind = match o.arg(8).rem_euclid(4) {
                0 => break,
                k if !uses_rng(&o.k) => k.max(3),
                k => k,
            };
            let mut rng = SimRng::new(seed);
            if kind < 3 {
                rng.fail_at = at;
                rng.err = kind == 2;
            } else {
                rt::set_fail((at % 8) as i64, 1 + (at / 8 % 4) as i64);
            }
            let f0 = fails();
            let r = ctx::guard(|| once(c, o, sh, &mut rng));
            if kind == 3 {
                rt::set_fail(-1, 0);
            }
            let disturbed = fails() != f0;
            let hit = kind < 3 && rng.hit;
            ctx::event("attempt", &[i as u64, kind as u64, at, r.is_ok() as u64, rng.draws]);
            match r {
                Ok(v) => {
                    // nothing went wrong in the end: the result counts
                    ctx::count("attempts that survived", 1);
                    if !hit && !disturbed {
                        ctx::out(format!("op {i} attempt {j}"), digest(&v));
                    }
                }
                Err(m) => {
                    if !ctx::check(hit || disturbed, "panic", || format!("op {i} {}: attempt panicked although no source failed: {m}", o.k)) {
                        return;
                    }
                    ctx::nontrivial();
                    ctx::count(&format!("aborted {}", o.k), 1);
                    ctx::count(if hit && kind == 1 { "fault caller's generator unwinds" } else if hit { "fault caller's generator reports an error" } else { "fault operation aborted by system entropy" }, 1);
                    ctx::state(&[crate::rg::hash_str(&o.k), kind as u64, rng.draws.min(64), hit as u64]);
                }
            }
        }
    }
    for tries in 0.. {
        let f0 = fails();
        match ctx::guard(|| once(c, o, sh, &mut SimRng::new(seed))) {
            Ok(v) => {
                let d = digest(&v);
                ctx::event("result", &[i as u64, d]);
                ctx::out(format!("op {i}"), d);
                return;
            }
            // another thread's failure window was open; the source works again later
            Err(_) if fails() != f0 && tries < 100 => {
                ctx::count("retried: entropy failed while other threads' failures were injected", 1);
            }
            Err(m) => {
                ctx::fail("damage", format!("op {i} {}: fails with working randomness: {m}", o.k));
                return;
            }
        }
    }
}

fn exec(c: &Case) {
    let c = Arc::new(c.clone());
    let nofail = c.get("nofail") != 0;
    let nt = if nofail { 1 } else { 1 + c.get("threads").rem_euclid(40) as usize };
    let sh = Arc::new((c.get("shared") != 0).then(|| shared(Pg::load(&c), c.get("keyseed") as u64)));
    let before = sh.as_ref().as_ref().map(|s| (s.look)());
    let (c2, sh2) = (c.clone(), sh.clone());
    team(nt, move |me| {
        for (i, o) in c2.ops.iter().enumerate() {
            if o.arg(0).rem_euclid(nt as i64) as usize == me && !ctx::failed() {
                step(&c2, o, i, &sh2);
            }
        }
    });
    rt::set_fail(-1, 0);
    if ctx::failed() {
        return;
    }
    if let Some(s) = sh.as_ref() {
        let after = (s.look)();
        ctx::check(Some(after) == before, "object-changed", || "keys changed while other operations failed".into());
        ctx::out("shared keys".into(), after);
    }
    for fi in [c.get("field"), c.get("field") + c.get("field2")] {
        with_field!(fi, F => {
            for l in 0..=max_log::<F>().min(5) {
                match ctx::must("table after failures", || F::get_ntt_table(l)) {
                    Some(Ok(t)) => { super::tables::table_works::<F>(&t, l, 7 + l as u64, "after failures"); }
                    Some(Err(e)) => ctx::fail("damage", format!("{} log_n={l}: {e}", F::NAME)),
                    None => {}
                }
            }
        });
    }
}

/// Differences between the results of two processes.
pub fn compare(a: &RunResult, b: &RunResult, class: &str) -> Option<(String, String)> {
    for (k, v) in &b.outs {
        // "op 3 attempt 1" has the result of "op 3"
        let base = k.split(" attempt").next().unwrap();
        if let Some(w) = a.outs.get(base) {
            if w != v {
                return Some((class.into(), format!("{k}: result {v:016x} instead of {w:016x}")));
            }
        }
    }
    None
}

fn outer(c: &Case) -> RunResult {
    let mut calm = c.clone();
    calm.set("nofail", 1);
    calm.explicit.clear();
    calm.sched = rt::Sched { entropy_seed: c.sched.entropy_seed ^ 0xabcd, ..Default::default() };
    let mut a = in_child(&calm, exec);
    if a.class.is_some() || a.inconclusive {
        a.msg = format!("without failures: {}", a.msg);
        return a;
    }
    let mut b = in_child(c, exec);
    if b.class.is_none() {
        if let Some((cl, m)) = compare(&a, &b, "different-result") {
            b.class = Some(cl);
            b.msg = m;
        }
    }
    b
}

pub fn gen_task(r: &mut Rg, fam: u64, nt: u64) -> (String, Vec<i64>) {
    let k = match fam {
        0 => r.pick(&LAT).to_string(),
        1 => r.pick(&ENV).to_string(),
        _ => r.pick(&FHE).to_string(),
    };
    (k, vec![r.below(nt.max(1)) as i64, r.below(1 << 20) as i64, 0, r.below(4) as i64, r.below(8) as i64, r.below(7) as i64, r.below(12) as i64])
}

fn gen(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P07");
    gen_params(r, &mut c, true, true);
    let heavy = i % 3 == 0;
    let usual = r.below(4);
    let nt = if heavy { usual } else { r.crowd(usual) as u64 };
    c.set("threads", nt as i64);
    c.set("field", r.below(12) as i64);
    c.set("field2", r.below(12) as i64);
    let sh = r.chance(300);
    c.set("shared", sh as i64);
    c.set("keyseed", r.below(1 << 30) as i64);
    let nops = if heavy { 1 + r.below(4) } else { 1 + r.below(if tier == "thorough" { 24 } else { 12 }) + if nt > 8 { nt } else { 0 } + if r.chance(6) { 300 } else { 0 } };
    for _ in 0..nops {
        let fam = if heavy { *r.pick(&[0, 1, 2, 2, 2]) } else { *r.pick(&[0, 0, 1]) };
        let (mut k, mut a) = gen_task(r, fam, nt + 1);
        if sh && r.chance(400) {
            k = "shared".into();
        }
        let at = if r.chance(300) { r.below(12) } else { r.logu(if fam == 2 { 14 } else { 10 }) - 1 };
        a.extend([at as i64, *r.pick(&[0, 1, 1, 1, 2, 2, 3, 3]), r.below(3) as i64]);
        c.ops.push(Op { k, a });
    }
    c.sched = gen_sched(r, if heavy { 24 } else { 18 }, nt > 0);
    c
}

pub static P07: PropDef = PropDef {
    id: "P07",
    neighbour: false,
    gen,
    exec,
    outer: Some(outer),
    runs_quick: 6000,
    runs_thorough: 150000,
    race: 600,
    rule: "a run is nontrivial when at least one operation was aborted by an injected failure and then repeated; distinct by history of attempts and results, and by schedule",
    real: &["algebra (tables, samplers, generator, primality)", "lattice samplers", "fhe_core key generation, encryption, key switching and blind rotation keys", "bool evaluator", "rand's thread generator"],
    stub: STUB_OS,
    assumptions: &["the process without failures is the reference; objects are compared by everything their Debug text shows and by the values they return"],
};
