//! P05: keys and fresh ciphertexts under any random stream.
use super::{PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::with_cq;
use algebra::{AsInto, NTTPolynomial, Polynomial};
use fhe_core::{LWECiphertext, LWEModulusType, LWEMsgType, Parameters, RingSecretKeyType, SecretKeyPack, Steps};
use std::sync::Arc;
use zkfhe::{Decryptor, Encryptor, KeyGen};

/// the largest magnitude a rounded, truncated Gaussian may have
fn bound(s: f64) -> u64 {
    (6.0 * s + 0.5).floor() as u64
}

fn check_key<C: LWEModulusType, Q: Fx>(sk: &SecretKeyPack<C, Q>, p: &Parameters<C, Q>, seed: u64) {
    let q = cu(p.lwe_cipher_modulus_value());
    let qq = Q::q();
    let s = lwe_key(sk);
    let z = ring_key(sk);
    ctx::check(s.len() == p.lwe_dimension(), "bad-dimension", || format!("LWE key has {} of {} values", s.len(), p.lwe_dimension()));
    ctx::check(z.len() == p.ring_dimension(), "bad-dimension", || format!("ring key has {} of {} values", z.len(), p.ring_dimension()));
    let binary = p.lwe_params().secret_key_type == fhe_core::LWESecretKeyType::Binary;
    let ok = |v: u64, m: u64, bin: bool| v == 0 || v == 1 || (!bin && v == m - 1);
    ctx::check(s.iter().all(|&v| ok(v, q, binary)), "bad-key-value", || format!("LWE key (binary: {binary}) {s:?}"));
    if matches!(p.steps(), Steps::BrMs) {
        let want: Vec<u64> = s.iter().map(|&v| if v <= 1 { v } else { qq - 1 }).collect();
        ctx::check(want == z, "keys-differ", || format!("ring key {z:?} is not the LWE key {s:?}"));
    } else {
        let t = p.ring_secret_key_type();
        let good = match t {
            RingSecretKeyType::Binary => z.iter().all(|&v| ok(v, qq, true)),
            RingSecretKeyType::Ternary => z.iter().all(|&v| ok(v, qq, false)),
            RingSecretKeyType::Gaussian => {
                let sd = p.ring_noise_standard_deviation();
                let b = if sd == 3.2 { 21 } else { bound(sd) };
                z.iter().all(|&v| v < qq && centred(v, qq).unsigned_abs() <= b)
            }
        };
        ctx::check(good, "bad-key-value", || format!("ring key of type {t:?}: {z:?}"));
    }
    // the transformed key is the transform of the key
    let nk = sk.ntt_ring_secret_key();
    let n = z.len();
    let back: Polynomial<Q> = nk.clone().into_native_polynomial();
    ctx::check(coeffs(&back) == z, "bad-transform", || "the inverse transform of the transformed ring key is another key".into());
    if n <= 256 {
        let mut r = Rg::new(seed);
        let a = { let _q = rt::quiet(); edge_vec(&mut r, n, qq) };
        let na: NTTPolynomial<Q> = poly::<Q>(&a).into_ntt_polynomial();
        let prod: Polynomial<Q> = (na * nk).into_native_polynomial();
        ctx::check(coeffs(&prod) == negacyclic(&a, &z, qq), "bad-transform", || "products with the transformed ring key are wrong".into());
    }
    ctx::event("key", &[ctx::digest(s), ctx::digest(z)]);
}

fn enc_dec<M: LWEMsgType + PartialEq + std::fmt::Debug, C: LWEModulusType, Q: Fx>(
    how: i64,
    m: M,
    mu: u64,
    sk: &SecretKeyPack<C, Q>,
    rng: &mut SimRng,
) {
    let p = sk.parameters();
    let (q, t) = (cu(p.lwe_cipher_modulus_value()), AsInto::<u64>::as_into(p.lwe_plain_modulus()));
    let n = p.lwe_dimension();
    let b = bound(p.lwe_noise_standard_deviation());
    let ct: LWECiphertext<C> = match ctx::must("encrypt", || if how & 1 == 0 { sk.encrypt(m, rng) } else { Encryptor::new(sk.clone()).encrypt(m, rng) }) {
        Some(c) => c,
        None => return,
    };
    let (a, bb) = lwe_c(&ct);
    ctx::check(a.len() == n, "bad-dimension", || format!("mask of {} values, dimension {n}", a.len()));
    ctx::check(a.iter().all(|&x| x < q) && bb < q, "out-of-range", || format!("ciphertext value not below {q}"));
    let s = lwe_key(sk);
    let e = phase(&ct, &s, q).wrapping_sub(mu * (q / t)) & (q - 1);
    let e = centred(e, q);
    ctx::check(e.unsigned_abs() <= b, "noise", || format!("message {mu} of {t}, modulus {q}: actual noise {e}, declared deviation {}", p.lwe_noise_standard_deviation()));
    ctx::max("max noise, per mille of the bound", e.unsigned_abs() * 1000 / b.max(1));
    ctx::event("enc", &[mu, e as u64, cdigest(&ct)]);
    if b >= q / (2 * t) {
        ctx::count("encryptions outside the decryptable range", 1);
        return;
    }
    ctx::count("encryptions checked", 1);
    let d = ctx::must("decrypt", || -> M { if how & 2 == 0 { sk.decrypt(&ct) } else { Decryptor::new(sk.clone()).decrypt(&ct) } });
    if let Some(d) = d {
        ctx::check(d == m, "wrong-value", || format!("message {m:?} of {t}, modulus {q}, noise {e} decrypts to {d:?}"));
    }
    let d = ctx::must("decrypt_with_noise", || -> (M, C) { if how & 2 == 0 { sk.decrypt_with_noise(&ct) } else { Decryptor::new(sk.clone()).decrypt_with_noise(&ct) } });
    if let Some((d, x)) = d {
        let x = cu(x);
        ctx::check(d == m, "wrong-value", || format!("message {m:?} of {t}, modulus {q}, noise {e} decrypts (with noise) to {d:?}"));
        ctx::check(x == e.unsigned_abs(), "noise-report", || format!("noise {e} reported as {x}"));
    }
}

fn one_enc<C: LWEModulusType, Q: Fx>(o: &Op, sk: &SecretKeyPack<C, Q>) {
    let t: u64 = AsInto::<u64>::as_into(sk.parameters().lwe_plain_modulus());
    let m = match o.arg(2).rem_euclid(8) {
        0 => 0,
        1 => t - 1,
        2 => t / 2,
        3 => t / 2 - 1,
        4 => 1 % t,
        _ => mix64(o.arg(2) as u64) % t,
    };
    let mut rng = SimRng::shaped(o.arg(3) as u64, o.idx(4, SHAPES as usize) as u64);
    let how = o.arg(5);
    match o.idx(1, 5) {
        0 if m < 2 => enc_dec(how, m == 1, m, sk, &mut rng),
        1 if t <= 1 << 8 => enc_dec(how, m as u8, m, sk, &mut rng),
        2 if t <= 1 << 16 => enc_dec(how, m as u16, m, sk, &mut rng),
        3 if t <= 1 << 32 => enc_dec(how, m as u32, m, sk, &mut rng),
        _ => enc_dec(how, m, m, sk, &mut rng),
    }
}

fn run<C: LWEModulusType + 'static, Q: Fx>(c: &Case, p: Parameters<C, Q>) {
    let q = cu(p.lwe_cipher_modulus_value());
    if bound(p.lwe_noise_standard_deviation()) * 2 >= q {
        return;
    }
    let nt = c.get("threads").clamp(1, 40) as usize;
    let make = move |seed: u64, shape: u64| -> Option<SecretKeyPack<C, Q>> {
        let mut rng = SimRng::shaped(seed, shape);
        let sk = ctx::must("key generation", || KeyGen::generate_secret_key(p, &mut rng))?;
        ctx::must("key check", || check_key(&sk, &p, seed ^ 3))?;
        Some(sk)
    };
    let sk = match make(c.get("keyseed") as u64, c.get("shape").rem_euclid(SHAPES as i64) as u64) {
        Some(s) => Arc::new(s),
        None => return,
    };
    let before = (lwe_key(&sk), ring_key(&sk));
    let body = {
        let (c, sk) = (c.clone(), sk.clone());
        Arc::new(move |me: usize| {
            for o in &c.ops {
                if o.idx(0, nt) != me || ctx::failed() {
                    continue;
                }
                match o.k.as_str() {
                    "key" => {
                        if let Some(k) = make(o.arg(3) as u64, o.idx(4, SHAPES as usize) as u64) {
                            one_enc(o, &k);
                        }
                    }
                    _ => {
                        one_enc(o, &sk);
                        // many more with the same key
                        for k in 0..o.arg(6).clamp(0, 70_000) {
                            if ctx::failed() {
                                break;
                            }
                            let mut o = o.clone();
                            (o.a[2], o.a[3]) = (mix64((o.arg(2) + k) as u64) as i64 >> 20, mix64((o.arg(3) + k) as u64) as i64 >> 20);
                            one_enc(&o, &sk);
                        }
                    }
                }
            }
        })
    };
    let mut hs = vec![];
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::Builder::new().stack_size(4 << 20).spawn(move || b(t)).unwrap());
    }
    body(0);
    for h in hs {
        ctx::check(h.join().is_ok(), "panic", || "a thread panicked".into());
    }
    ctx::check((lwe_key(&sk), ring_key(&sk)) == before, "key-changed", || "the shared secret key changed".into());
    if !c.ops.is_empty() {
        ctx::nontrivial();
    }
}
fn exec_p05(c: &Case) {
    match c.get("shipped") {
        1 => run::<u16, DefaultFieldU32>(c, *zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS),
        2 => run::<u16, DefaultFieldU32>(c, *zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS),
        _ => {
            let p = Pg::load(c);
            with_cq!(p.pair, C, Q => run::<C, Q>(c, p.params::<C, Q>()))
        }
    }
}
fn gen_p05(r: &mut Rg, i: u64, _tier: &str) -> Case {
    let mut c = Case::new("P05");
    gen_params(r, &mut c, false, false);
    if i % 40 < 2 {
        c.set("shipped", 1 + (i % 2) as i64);
    } else {
        let pair = c.get("pair");
        let cb = pair_cbits(pair) as i64;
        let logn = if cb == 8 { r.range(2, 6) } else { r.range(2, 10) };
        c.set("logn", logn);
        let nmax = 1i64 << logn;
        c.set("n", match r.below(6) {
            0 => 1,
            1 => nmax,
            2 => 16 * (1 + r.below(8) as i64) + r.range(-1, 1),
            3 => 32 * (1 + r.below(4) as i64),
            _ => 1 + r.below(nmax as u64) as i64,
        });
        let logt = 1 + r.below((cb - 3) as u64) as i64;
        c.set("logt", if r.chance(400) { r.range(1, 3) } else { logt });
        let logt = c.get("logt");
        c.set("logq", (logt + 1 + r.below((cb - logt) as u64) as i64).clamp(3, cb - 1));
        // mostly noise that leaves the message readable
        for _ in 0..20 {
            c.set("s_lwe", r.below(8) as i64);
            if r.chance(60) || bound(sigma(c.get("s_lwe"))) < 1 << (c.get("logq") - logt - 1).max(0) {
                break;
            }
        }
    }
    let long = c.get("shipped") == 0 && r.chance(5);
    if long {
        c.set("n", r.range(1, 4));
    }
    c.set("keyseed", r.below(1 << 40) as i64);
    c.set("shape", if r.chance(300) { 0 } else { r.below(SHAPES) as i64 });
    let usual = 1 + r.below(3);
    let nt = r.crowd(usual);
    c.set("threads", nt);
    c.sched = gen_sched(r, 18, true);
    let nt = c.get("threads") as u64;
    let n = 2 + r.below(12) + if nt > 8 { nt } else { 0 };
    for _ in 0..n {
        let kind = if r.chance(150) { "key" } else { "enc" };
        let t = r.below(nt) as i64;
        let (ty, m, s) = (r.below(5) as i64, r.below(1 << 30) as i64, r.below(1 << 40) as i64);
        let shape = if r.chance(250) { 0 } else { r.below(SHAPES) as i64 };
        c.op(kind, &[t, ty, m, s, shape, r.below(4) as i64]);
    }
    if long {
        let (t, at) = (r.below(nt) as i64, r.below(c.ops.len() as u64) as usize);
        let a = vec![t, r.below(5) as i64, r.below(1 << 30) as i64, r.below(1 << 40) as i64, 0, r.below(4) as i64, *r.pick(&[300, 1100, 5000, 67_000])];
        c.ops.insert(at, Op { k: "enc".into(), a });
    }
    c
}

pub static P05: PropDef = PropDef {
    id: "P05",
    neighbour: true,
    gen: gen_p05,
    exec: exec_p05,
    outer: None,
    runs_quick: 20000,
    runs_thorough: 400000,
    race: 600,
    rule: "a run is nontrivial when at least one encryption was made; distinct by history of every key, noise and ciphertext, and by schedule",
    real: &["fhe_core (parameters, SecretKeyPack, encode/decode)", "zkfhe (KeyGen, Encryptor, Decryptor)", "lattice (LWE, samplers)", "algebra (samplers, transforms)"],
    stub: STUB_OS,
    assumptions: &["biased random streams keep a share of uniform words, so that rejection sampling terminates"],
};
