//! P12: bootstrapping with arbitrary lookup polynomials; P13: key switching.
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::with_cq;
use algebra::AsInto;
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey, LWECiphertext, LWEModulusType, SecretKeyPack};
use lattice::{LWE, RLWE};
use std::sync::Arc;
use zkfhe::bfhe::Evaluator;

/// variance of one error coefficient, bounded from above
fn var(s: f64) -> f64 {
    if s < 1e-6 { 0.0 } else { (s + 0.1).powi(2) + 1.0 / 12.0 }
}
/// eight deviations, or exactly nothing
fn tol(v: f64) -> f64 {
    if v == 0.0 { 0.0 } else { 8.0 * v.sqrt() + 1.0 }
}
fn digits(p: &Pg, bits: u32) -> f64 {
    (64 - pair_q(p.pair).leading_zeros()).div_ceil(bits) as f64
}
/// variance of the accumulator's noise after blind rotation, modulo Q
fn var_br(p: &Pg) -> f64 {
    let b = (1u64 << p.br_bits) as f64;
    p.n as f64 * (1 + p.lwe_key) as f64 * 2.0 * digits(p, p.br_bits) * p.ring() as f64 * b * b * var(p.s_ring)
}
fn var_ks_ring(p: &Pg) -> f64 {
    let b = (1u64 << p.ks_bits) as f64;
    p.ring() as f64 * digits(p, p.ks_bits) * b * b * var(p.s_ks)
}
fn var_ks_lwe(p: &Pg) -> f64 {
    p.ring() as f64 * p.logq.div_ceil(p.ks_bits) as f64 * var(p.s_ks)
}
/// the key as signed integers
fn signed(s: &[u64], q: u64) -> Vec<i64> {
    s.iter().map(|&v| centred(v, q)).collect()
}
fn norm2(s: &[i64]) -> f64 {
    s.iter().map(|&v| (v * v) as f64).sum()
}
fn lwe_from<C: LWEModulusType>(a: &[u64], b: u64) -> LWECiphertext<C>
where
    u64: AsInto<C>,
{
    LWE::new(a.iter().map(|&x| x.as_into()).collect(), b.as_into())
}

// ---------------------------------------------------------------- P12
fn input(o: &Op, p: &Pg, s: &[i64]) -> (Vec<u64>, u64) {
    let mut r = Rg::new(o.arg(2) as u64);
    let (q, n) = (p.q(), p.n);
    let twon = 2 * p.ring() as u64;
    let a: Vec<u64> = match o.arg(1).rem_euclid(7) {
        0 => vec![0; n],
        1 => vec![q - 1; n],
        2 => edge_vec(&mut r, n, q),
        3 => (0..n).map(|_| (edge_val(&mut r, twon) as u128 * q as u128 / twon as u128) as u64 % q).collect(),
        4 => (0..n).map(|_| [0, q / 2, q - 1, 1, q / 4][r.below(5) as usize]).collect(),
        _ => (0..n).map(|_| r.below(q)).collect(),
    };
    // either b directly, or a chosen phase
    let b = match o.arg(3).rem_euclid(4) {
        0 => edge_val(&mut r, q),
        1 => 0,
        _ => {
            let ph = match r.below(4) {
                0 => edge_val(&mut r, q),
                1 => (r.below(8) * (q / 8)).wrapping_add(r.below(3)).wrapping_sub(1),
                _ => r.below(q),
            };
            a.iter().zip(s).fold(ph, |x, (&y, &z)| x.wrapping_add(y.wrapping_mul(z as u64))) & (q - 1)
        }
    };
    (a, b)
}
/// An input that shares almost everything with the one before it.
fn relative(kind: i64, seed: u64, q: u64, (mut a, mut b): (Vec<u64>, u64)) -> (Vec<u64>, u64) {
    let mut r = Rg::new(seed ^ 0x7e1a);
    let n = a.len() as u64;
    let d = 1 + r.below(q - 1);
    let (i, j) = (r.below(n) as usize, r.below(n) as usize);
    let m = |x: u64| if q.is_power_of_two() { x & (q - 1) } else { x % q };
    match kind {
        0 => a[i] = m(a[i] + d),
        1 => a[n as usize - 1] = m(a[n as usize - 1] + d),
        2 => b = m(b + d),
        3 => {}
        4 => a.swap(i, j),
        _ => {
            a[i] = m(a[i] + d);
            a[j] = m(a[j] + (q - d));
        }
    }
    (a, b)
}
fn table<Q: Fx>(o: &Op, n: usize) -> Vec<u64> {
    let mut r = Rg::new(o.arg(5) as u64);
    let q = Q::q();
    match o.arg(4).rem_euclid(6) {
        0 => vec![r.below(q); n],
        1 => edge_vec(&mut r, n, q),
        2 => {
            let at = r.below(n as u64 + 1) as usize;
            (0..n).map(|i| if i < at { q >> 3 } else { q - (q >> 3) }).collect()
        }
        3 => (0..n).map(|i| i as u64 * (q / (2 * n as u64))).collect(),
        4 => {
            let st = 1 << r.below(3);
            (0..n).map(|i| if i % st == 0 { r.below(q) } else { 0 }).collect()
        }
        _ => (0..n).map(|_| r.below(q)).collect(),
    }
}

fn xdigest<F: Fx>(c: &LWE<F>) -> u64 {
    let (a, b) = lwe_parts(c);
    ctx::digest(a.into_iter().chain([b]))
}
/// A session of one pair of calls, much longer than any other: returns the number of repetitions.
fn long(r: &mut Rg, c: &mut Case, most: i64) -> i64 {
    c.set("logn", r.range(2, 3));
    c.set("n", r.range(1, 4));
    c.set("threads", 1);
    for k in ["ks_bits", "br_bits"] {
        let v = c.get(k).max(3);
        c.set(k, v);
    }
    *r.pick(&[300, 600, 1100, most])
}
/// the longest session with one key
const LONGEST: i64 = 70_000;
fn boot_one<C: LWEModulusType, Q: Fx>(o: &Op, p: &Pg, sk: &SecretKeyPack<C, Q>, ev: &Evaluator<C, Q>, bk: &BlindRotationKey<Q>, prev: &mut Option<(Vec<u64>, u64, Vec<u64>)>)
where
    u64: AsInto<C>,
{
    let (q, qq, nn) = (p.q(), Q::q(), p.ring());
    let twon = 2 * nn as u64;
    let (sq, z) = (lwe_key(sk), ring_key(sk));
    let (s, zs) = (signed(&sq, q), signed(&z, qq));
    let ((a, b), lut) = {
        let _q = rt::quiet();
        let (mut ab, mut lut) = (input(o, p, &s), table::<Q>(o, nn));
        if let (Some((a0, b0, l0)), k @ 0..=7) = (prev.take(), o.arg(7).rem_euclid(16)) {
            ctx::count("inputs close to the one before", 1);
            // the same table, one entry apart, or another one altogether
            let mut r = Rg::new(o.arg(5) as u64);
            match r.below(4) {
                0 => {}
                1 => {
                    let i = r.below(nn as u64) as usize;
                    lut = l0;
                    lut[i] = addm(lut[i], 1 + r.below(qq - 1), qq);
                }
                _ => lut = l0,
            }
            ab = relative(k, o.arg(2) as u64, q, (a0, b0));
        }
        *prev = Some((ab.0.clone(), ab.1, lut.clone()));
        (ab, lut)
    };
    // reference: switch to 2N, select the entry
    let sw = |v: u64| ((v as u128 * twon as u128 + q as u128 / 2) / q as u128) as u64 % twon;
    let a2: Vec<u64> = a.iter().map(|&v| sw(v)).collect();
    let b2 = sw(b);
    let ph = (b2 as i64 - a2.iter().zip(&s).map(|(&x, &y)| x as i64 * y).sum::<i64>()).rem_euclid(twon as i64) as usize;
    let entry = if ph < nn { lut[ph] } else { negm(lut[ph - nn], qq) };
    ctx::state(&[p.steps as u64, p.lwe_key as u64, (ph * 16 / twon as usize) as u64, (q >= twon) as u64, (q > twon) as u64]);

    // the accumulator alone
    if o.arg(6) & 1 == 0 {
        let acc = match ctx::must("blind_rotate", || bk.blind_rotate(poly::<Q>(&lut), &lwe_from::<C>(&a2, b2), sk.parameters().blind_rotation_basis())) {
            Some(x) => x,
            None => return,
        };
        let want = rot(&lut, 2 * nn - ph, qq);
        let got = rlwe_phase(&acc, &z);
        let t = tol(var_br(p));
        let worst = subv(&got, &want, qq).into_iter().map(|v| centred(v, qq).unsigned_abs()).max().unwrap_or(0);
        ctx::event("rotate", &[ph as u64, ctx::digest(us(acc.a_slice())), ctx::digest(us(acc.b_slice()))]);
        ctx::count("accumulators checked", 1);
        ctx::check(worst as f64 <= t, "wrong-rotation", || format!("phase {ph} of {twon}: accumulator off by {worst} of {qq}, allowed {t:.1} ({p:?})"));
    }
    let ct = lwe_from::<C>(&a, b);
    let out = match ctx::must("bootstrap", || ev.bootstrap(ct.clone(), poly::<Q>(&lut))) {
        Some(x) => x,
        None => return,
    };
    let (oa, ob) = lwe_c(&out);
    ctx::event("boot", &[ph as u64, cdigest(&out)]);
    if !ctx::check(oa.len() == p.n && oa.iter().all(|&v| v < q) && ob < q, "out-of-range", || format!("output of {} values modulo {q}, dimension {}", oa.len(), p.n)) {
        return;
    }
    let v = addm(entry, qq >> 3, qq);
    let ratio = q as f64 / qq as f64;
    let (ks, h) = match p.steps {
        0 => (var_ks_lwe(p), norm2(&zs)),
        1 => (var_ks_ring(p) * ratio * ratio, norm2(&s)),
        _ => (0.0, norm2(&zs)),
    };
    // rounding of the switch to q: each coefficient is off by at most a half
    // and moduli beyond 2^50 exceed what the double-precision switch resolves
    let fl = (q as f64 / (1u64 << 52) as f64).powi(2) * (1.0 + h);
    let t = 8.0 * (var_br(p) * ratio * ratio + ks + (1.0 + h) / 12.0 + fl).sqrt() + 1.0;
    let got = phase(&out, &sq, q) as f64;
    let mut d = (got - v as f64 * ratio).rem_euclid(q as f64);
    if d > q as f64 / 2.0 {
        d = q as f64 - d;
    }
    if t < q as f64 / 4.0 {
        ctx::count("bootstraps checked", 1);
        ctx::nontrivial();
    }
    ctx::check(d <= t, "wrong-entry", || format!("phase {ph} of {twon} selects {entry} of {qq}: got {got} of {q}, off by {d:.1}, allowed {t:.1} ({p:?})"));
    if o.arg(6) & 2 == 0 {
        let again = ctx::must("bootstrap", || ev.bootstrap(ct.clone(), poly::<Q>(&lut)));
        ctx::check(again.as_ref().map(cdigest) == Some(cdigest(&out)), "not-repeatable", || "the same bootstrap again gave another ciphertext".into());
    }
    // the same two calls over and over
    let times = o.arg(8).clamp(0, LONGEST);
    if times > 0 {
        let ct2 = lwe_from::<C>(&a, (b + 1) & (q - 1));
        let first = match ctx::must("bootstrap", || ev.bootstrap(ct2.clone(), poly::<Q>(&lut))) {
            Some(x) => [cdigest(&out), cdigest(&x)],
            None => return,
        };
        for k in 0..times {
            let i = (k & 1) as usize;
            let Some(x) = ctx::must("bootstrap", || ev.bootstrap([&ct, &ct2][i].clone(), poly::<Q>(&lut))) else { return };
            if !ctx::check(cdigest(&x) == first[i], "wears-out", || format!("the same bootstrap gave another ciphertext after {k} more calls ({p:?})")) {
                return;
            }
        }
        ctx::count("calls in long sessions", times as u64);
        ctx::max("max calls with one key", times as u64);
    }
}

fn run12<C: LWEModulusType + 'static, Q: Fx>(c: &Case, p: Pg)
where
    u64: AsInto<C>,
{
    let (sk, _) = match ctx::must("key generation", || build::<C, Q>(&p, c.get("keyseed") as u64)) {
        Some(x) => x,
        None => return,
    };
    let es = mix64(c.get("keyseed") as u64 ^ 5);
    let ev = match ctx::must("evaluation key", || Evaluator::<C, Q>::new(&sk, &mut SimRng::new(es))) {
        Some(x) => x,
        None => return,
    };
    let bk = match ctx::must("blind rotation key", || BlindRotationKey::generate(&sk, &mut SimRng::new(es))) {
        Some(x) => x,
        None => return,
    };
    let nt = c.get("threads").clamp(1, 40) as usize;
    let all = Arc::new((sk, ev, bk, p, c.clone()));
    team(nt, move |me: usize| {
        let (sk, ev, bk, p, c) = &*all;
        let mut prev = None;
        for o in &c.ops {
            if o.idx(0, nt) != me || ctx::failed() {
                continue;
            }
            if o.k == "broken" {
                // an evaluation that dies half way
                let bad = LWE::<C>::new(vec![C::ONE; p.n], C::ONE);
                let r = ctx::guard(|| ev.bootstrap(bad, poly::<Q>(&vec![1; p.ring() / 2])));
                ctx::count("evaluations that died", r.is_err() as u64);
            } else {
                boot_one::<C, Q>(o, p, sk, ev, bk, &mut prev);
            }
        }
    });
}
fn exec_p12(c: &Case) {
    let p = Pg::load(c);
    with_cq!(p.pair, C, Q => run12::<C, Q>(c, p))
}
fn shape(r: &mut Rg, c: &mut Case, i: u64, tier: &str) {
    gen_params(r, c, false, tier != "thorough" || i % 50 != 0);
    let pair = c.get("pair");
    let (cb, qb) = (pair_cbits(pair) as i64, 64 - pair_q(pair).leading_zeros() as i64);
    let logn = r.range(2, if cb == 8 || i % 4 != 0 { 6 } else { 7 });
    c.set("logn", logn);
    c.set("n", match r.below(6) { 0 => 1, 1 => 1 << logn, 2 => 1 << r.range(1, logn), _ => r.range(1, (1 << logn).min(20)) });
    c.set("logq", match r.below(6) { 0 => logn + 1, 1 => logn, 2 => logn + 2, 3 => cb - 1, _ => r.range(4, cb - 1) });
    c.set("logt", r.range(1, 3));
    c.set("br_bits", if r.chance(100) { qb.min(16) } else { r.range(1, 9) });
    let quiet = r.chance(500);
    for k in ["s_lwe", "s_ring", "s_ks"] {
        c.set(k, if quiet || r.chance(150) { 0 } else { r.below(7) as i64 });
    }
    c.set("keyseed", r.below(1 << 40) as i64);
    let usual = if r.chance(500) { 1 } else { 2 + r.below(2) };
    let nt = r.crowd(usual);
    c.set("threads", nt);
    if nt > 8 {
        c.set("logn", r.range(2, 4));
        c.set("n", r.range(1, 4));
    }
}
fn gen_p12(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P12");
    shape(r, &mut c, i, tier);
    if r.chance(10) {
        let times = long(r, &mut c, 5000);
        let v: Vec<i64> = (0..5).map(|_| r.below(1 << 30) as i64).collect();
        c.op("boot", &[0, v[0], v[1], v[2], v[3], v[4], 3, 15, times]);
        return c;
    }
    c.sched = gen_sched(r, 22, c.get("threads") > 1);
    let nt = c.get("threads") as u64;
    for j in 0..nt.max(3) + r.below(10) {
        let k = if r.chance(40) { "broken" } else { "boot" };
        let t = if j < nt { j } else { r.below(nt) } as i64;
        let v: Vec<i64> = (0..5).map(|_| r.below(1 << 30) as i64).collect();
        c.op(k, &[t, v[0], v[1], v[2], v[3], v[4], r.below(16) as i64 | 2 * (r.chance(800) as i64), if r.chance(350) { r.below(6) as i64 } else { 15 }]);
    }
    c
}

// ---------------------------------------------------------------- P13
/// the inputs of the last switch of either kind
#[derive(Default, Clone)]
struct Prev {
    lwe: Option<(Vec<u64>, u64)>,
    ring: Option<(Vec<u64>, Vec<u64>)>,
}
struct Keys<C: LWEModulusType, Q: Fx> {
    sk: SecretKeyPack<C, Q>,
    lwe: Option<KeySwitchingLWEKey<C>>,
    ring: Option<KeySwitchingRLWEKey<Q>>,
    p: Pg,
}
fn ks_op<C: LWEModulusType, Q: Fx>(o: &Op, k: &Keys<C, Q>, note: &mut Vec<(Op, Prev, u64)>, prev: &mut Prev)
where
    u64: AsInto<C>,
{
    let p = &k.p;
    let (q, qq, nn) = (p.q(), Q::q(), p.ring());
    let (sq, z) = (lwe_key(&k.sk), ring_key(&k.sk));
    let s = signed(&sq, q);
    let zs = signed(&z, qq);
    let mut r = Rg::new(o.arg(1) as u64);
    let mut d = vec![];
    let was = prev.clone();
    match (o.k.as_str(), &k.lwe, &k.ring) {
        ("lwe", Some(key), _) => {
            let (a, b) = {
                let _q = rt::quiet();
                let mut ab = (edge_vec(&mut r, nn, q), edge_val(&mut r, q));
                if let (Some(x), k @ 0..=7) = (prev.lwe.take(), o.arg(3).rem_euclid(16)) {
                    ctx::count("inputs close to the one before", 1);
                    ab = relative(k, o.arg(1) as u64, q, x);
                }
                prev.lwe = Some(ab.clone());
                ab
            };
            let want = a.iter().zip(&zs).fold(b, |x, (&y, &v)| x.wrapping_sub(y.wrapping_mul(v as u64))) & (q - 1);
            let out = match ctx::must("key_switch_for_lwe", || key.key_switch_for_lwe(lwe_from::<C>(&a, b))) {
                Some(x) => x,
                None => return,
            };
            let (oa, ob) = lwe_c(&out);
            if !ctx::check(oa.len() == p.n && ob < q && oa.iter().all(|&v| v < q), "out-of-range", || format!("{} values for dimension {}", oa.len(), p.n)) {
                return;
            }
            let got = phase(&out, &sq, q);
            let e = centred(got.wrapping_sub(want) & (q - 1), q).unsigned_abs();
            let t = tol(var_ks_lwe(p));
            ctx::check(e as f64 <= t, "value-changed", || format!("LWE key switch modulo {q}: phase {want} became {got}, allowed {t:.1} ({p:?})"));
            let times = o.arg(4).clamp(0, LONGEST);
            let other = (subv(&vec![0; nn], &a, q), b);
            let mut first = [Some(cdigest(&out)), None];
            for k in 0..times {
                let i = (k & 1) as usize ^ 1;
                let Some(x) = ctx::must("key_switch_for_lwe", || key.key_switch_for_lwe(lwe_from::<C>(if i == 0 { &a } else { &other.0 }, other.1))) else { return };
                if !ctx::check(*first[i].get_or_insert(cdigest(&x)) == cdigest(&x), "wears-out", || format!("the same switch gave another ciphertext after {k} more calls ({p:?})")) {
                    return;
                }
            }
            if times > 0 {
                ctx::count("calls in long sessions", times as u64);
                ctx::max("max calls with one key", times as u64);
            }
            ctx::count("LWE switches", 1);
            if t < q as f64 / 4.0 {
                ctx::nontrivial();
            }
            d.push(cdigest(&out));
        }
        ("ring", _, Some(key)) => {
            let (a, b) = {
                let _q = rt::quiet();
                let mut ab = (edge_vec(&mut r, nn, qq), edge_vec(&mut r, nn, qq));
                if let (Some((a, mut b)), k @ 0..=7) = (prev.ring.take(), o.arg(3).rem_euclid(16)) {
                    ctx::count("inputs close to the one before", 1);
                    let i = (o.arg(1) >> 3) as usize % nn;
                    let (a2, b2) = relative(k, o.arg(1) as u64, qq, (a, b[i]));
                    b[i] = b2;
                    ab = (a2, b);
                }
                prev.ring = Some(ab.clone());
                ab
            };
            let c = RLWE::<Q>::new(poly::<Q>(&a), poly::<Q>(&b));
            let want = rlwe_phase(&c, &z)[0];
            let t = tol(var_ks_ring(p));
            // the ring entry point, and the entry point for an extracted (or hand-made) ciphertext
            let x = match ctx::must("key_switch_for_rlwe", || key.key_switch_for_rlwe(c.clone())) {
                Some(x) => x,
                None => return,
            };
            let mut la = vec![a[0]];
            la.extend((1..nn).map(|i| negm(a[nn - i], qq)));
            let l = if o.arg(2) & 1 == 0 { LWE::<Q>::new(la.iter().map(|&v| Q::f(v)).collect(), Q::f(b[0])) } else { c.clone().extract_lwe_locally() };
            let y = match ctx::must("key_switch_for_lwe", || key.key_switch_for_lwe(l)) {
                Some(y) => y,
                None => return,
            };
            let sl: Vec<u64> = s.iter().map(|&v| modq(v as i128, qq)).collect();
            for (how, w) in [("ring", &x), ("extracted", &y)] {
                let (wa, wb) = lwe_parts(w);
                if !ctx::check(wa.len() == p.n, "bad-dimension", || format!("{how} entry point: {} values for dimension {}", wa.len(), p.n)) {
                    return;
                }
                let got = lwe_phase(&wa, wb, &sl, qq);
                let e = centred(subm(got, want, qq), qq).unsigned_abs();
                ctx::check(e as f64 <= t, "value-changed", || format!("{how} entry point modulo {qq}: phase {want} became {got}, allowed {t:.1} ({p:?})"));
                d.push(ctx::digest(wa.into_iter().chain([wb])));
            }
            let times = o.arg(4).clamp(0, LONGEST);
            let first = [xdigest(&x), xdigest(&y)];
            for k in 0..times {
                let i = (k & 1) as usize;
                let again = if i == 0 { ctx::must("key_switch_for_rlwe", || key.key_switch_for_rlwe(c.clone())) } else { ctx::must("key_switch_for_lwe", || key.key_switch_for_lwe(c.clone().extract_lwe_locally())) };
                let Some(z) = again else { return };
                if !ctx::check(xdigest(&z) == first[i] || (i == 1 && o.arg(2) & 1 == 0), "wears-out", || format!("the same switch gave another ciphertext after {k} more calls ({p:?})")) {
                    return;
                }
            }
            if times > 0 {
                ctx::count("calls in long sessions", times as u64);
                ctx::max("max calls with one key", times as u64);
            }
            ctx::count("ring switches", 1);
            if t < qq as f64 / 4.0 {
                ctx::nontrivial();
            }
        }
        ("broken", _, Some(key)) => {
            // a caller's mistake unwinds out of the key
            let r = ctx::guard(|| key.key_switch_for_rlwe(RLWE::<Q>::new(poly::<Q>(&[1]), poly::<Q>(&[]))));
            ctx::count("switches that died", r.is_err() as u64);
            return;
        }
        _ => return,
    }
    let h = ctx::digest(d);
    ctx::event(&o.k, &[h]);
    note.push((o.clone(), was, h));
}
fn run13<C: LWEModulusType + 'static, Q: Fx>(c: &Case, p: Pg)
where
    u64: AsInto<C>,
{
    let (sk, _) = match ctx::must("key generation", || build::<C, Q>(&p, c.get("keyseed") as u64)) {
        Some(x) => x,
        None => return,
    };
    let ks = mix64(c.get("keyseed") as u64 ^ 9);
    // each kind of key is used where its parameters make sense
    let lwe = if p.ring_key != 2 && p.steps != 1 && p.ks_bits <= p.logq.min(7) { ctx::must("LWE switching key", || KeySwitchingLWEKey::generate(&sk, &mut SimRng::new(ks))) } else { None };
    let ring = ctx::must("ring switching key", || KeySwitchingRLWEKey::generate(&sk, &mut SimRng::new(ks + 1)));
    if ctx::failed() {
        return;
    }
    let nt = c.get("threads").clamp(1, 40) as usize;
    ctx::state(&[p.n as u64, p.logn as u64, p.ks_bits as u64, lwe.is_some() as u64]);
    let all = Arc::new((Keys { sk, lwe, ring, p }, c.clone()));
    team(nt, move |me: usize| {
        let (mut note, mut prev) = (vec![], Prev::default());
        let (k, c) = &*all;
        for o in &c.ops {
            if o.idx(0, nt) == me && !ctx::failed() {
                ks_op::<C, Q>(o, k, &mut note, &mut prev);
            }
        }
        // the key still does what it did at first
        for (o, mut was, h) in note.clone().into_iter().take(2) {
            let mut again = vec![];
            ks_op::<C, Q>(&o, k, &mut again, &mut was);
            ctx::check(again.first().map(|x| x.2) == Some(h) || ctx::failed(), "not-reusable", || "the first ciphertext switched again gave another result".into());
        }
    });
}
fn exec_p13(c: &Case) {
    let p = Pg::load(c);
    with_cq!(p.pair, C, Q => run13::<C, Q>(c, p))
}
fn gen_p13(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P13");
    shape(r, &mut c, i, tier);
    let pair = c.get("pair");
    let qb = 64 - pair_q(pair).leading_zeros() as i64;
    let logn = r.range(2, if pair_cbits(pair) == 8 || c.get("steps") != 1 { 6 } else if i % 10 == 0 { 9 } else { 7 });
    c.set("logn", logn);
    let crowd = c.get("threads") > 8;
    let logn = if crowd { logn.min(4) } else { logn };
    c.set("logn", logn);
    c.set("n", match r.below(6) { 0 => 1, 1 => 1 << logn, 2 => 1 << r.range(1, logn), 3 => (1i64 << logn) - 1, _ => r.range(1, 1 << logn) });
    c.set("ks_bits", if c.get("steps") == 0 { r.range(1, if logn > 5 { 4 } else { 6 }) } else if r.chance(100) { qb.min(16) } else { r.range(1, 12) });
    if r.chance(10) {
        let times = long(r, &mut c, 67_000);
        let (lwe, x) = (r.chance(500), r.below(1 << 40) as i64);
        c.op(if lwe { "lwe" } else { "ring" }, &[0, x, 1, 15, times]);
        return c;
    }
    c.sched = gen_sched(r, 20, c.get("threads") > 1);
    let nt = c.get("threads") as u64;
    for j in 0..nt.max(3) + r.below(14) {
        let k = match r.below(20) { 0 => "broken", 1..=9 => "lwe", _ => "ring" };
        c.op(k, &[if j < nt { j } else { r.below(nt) } as i64, r.below(1 << 40) as i64, r.below(4) as i64, if r.chance(350) { r.below(6) as i64 } else { 15 }]);
    }
    c
}

pub static P12: PropDef = PropDef {
    id: "P12",
    neighbour: true,
    gen: gen_p12,
    exec: exec_p12,
    outer: None,
    runs_quick: 12000,
    runs_thorough: 100000,
    race: 800,
    rule: "a run is nontrivial when at least one bootstrap's allowed deviation was below a quarter of the modulus; distinct by history of every accumulator and ciphertext, and by schedule",
    real: &["zkfhe (Evaluator::bootstrap)", "fhe_core (blind rotation, key switching, modulus switching)", "lattice (RLWE, gadget, RGSW products)", "algebra (transforms, decomposition)"],
    stub: STUB_OS,
    assumptions: &["noise is judged against eight predicted standard deviations, digits at their largest; toy dimensions up to 128"],
};
pub static P13: PropDef = PropDef {
    id: "P13",
    neighbour: true,
    gen: gen_p13,
    exec: exec_p13,
    outer: None,
    runs_quick: 30000,
    runs_thorough: 200000,
    race: 2000,
    rule: "a run is nontrivial when at least one key switch's allowed deviation was below a quarter of the modulus; distinct by history of every switched ciphertext, and by schedule",
    real: &["fhe_core (both switching keys)", "lattice (LWE, RLWE, gadget products)", "algebra (transforms, decomposition)"],
    stub: STUB_OS,
    assumptions: &["noise is judged against eight predicted standard deviations, digits at their largest; dimensions up to 512"],
};
