//! P15: what samplers, encryption and key generation draw, judged against the declared distributions.
//!
//! Every test is a count of an event whose probability is known exactly under the declared
//! distribution; it fails when the Chernoff bound for the count seen is below e^-40.
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::{with_cq, with_field};
use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::utils::{Block, Prg};
use algebra::{AsInto, Basis, Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTPolynomial, Polynomial};
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey, LWEModulusType};
use lattice::*;
use rand::distributions::Distribution;
use rand::{CryptoRng, RngCore, SeedableRng};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use zkfhe::KeyGen;

const NATS: f64 = 40.0;

#[derive(Clone, Debug, PartialEq)]
pub enum Dist {
    Uniform(u64),
    /// deviation, largest magnitude before rounding, a centred binomial of 2x21 bits will do as well
    Gauss(f64, f64, bool),
    Binary,
    Ternary,
}
/// Vectors that are declared to have independent coefficients of one distribution, centred unless uniform.
#[derive(Clone, Debug)]
pub struct Series {
    name: String,
    dist: Dist,
    rows: Vec<Vec<i64>>,
}

// ------------------------------------------------------------------ randomness handed to the code
#[derive(Clone)]
enum Src {
    Sim(SimRng),
    Own(Box<Prg>),
}
impl RngCore for Src {
    fn next_u32(&mut self) -> u32 {
        match self {
            Src::Sim(r) => r.next_u32(),
            Src::Own(r) => r.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match self {
            Src::Sim(r) => r.next_u64(),
            Src::Own(r) => r.next_u64(),
        }
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        match self {
            Src::Sim(r) => r.fill_bytes(d),
            Src::Own(r) => r.fill_bytes(d),
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Src {}

// ------------------------------------------------------------------ reading keys through their Debug text
enum Node {
    Num(u64),
    List(Vec<(String, Node)>),
}
/// A generic reader of what `#[derive(Debug)]` prints.
struct Text<'a> {
    s: &'a [u8],
    i: usize,
}
impl Text<'_> {
    fn skip(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b',') {
            self.i += 1;
        }
    }
    fn peek(&self) -> u8 {
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn word(&mut self) -> String {
        let a = self.i;
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' || self.peek() == b'.' || self.peek() == b'-' {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).into_owned()
    }
    fn list(&mut self, end: u8) -> Option<Node> {
        self.i += 1;
        let mut v = vec![];
        loop {
            self.skip();
            if self.peek() == end {
                self.i += 1;
                return Some(Node::List(v));
            }
            if self.i >= self.s.len() {
                return None;
            }
            let a = self.i;
            let w = self.word();
            if !w.is_empty() && self.peek() == b':' {
                self.i += 1;
                v.push((w, self.node()?));
            } else {
                self.i = a;
                v.push((String::new(), self.node()?));
            }
        }
    }
    fn node(&mut self) -> Option<Node> {
        self.skip();
        let w = self.word();
        if w.is_empty() && !b"[({".contains(&self.peek()) {
            return None;
        }
        let save = self.i;
        self.skip();
        match self.peek() {
            b'[' => self.list(b']'),
            b'(' => self.list(b')'),
            b'{' => self.list(b'}'),
            _ => {
                self.i = save;
                Some(Node::Num(w.parse().unwrap_or(u64::MAX)))
            }
        }
    }
}
impl Node {
    fn flat(&self, out: &mut Vec<u64>) {
        match self {
            Node::Num(v) => out.push(*v),
            Node::List(l) => l.iter().for_each(|(_, n)| n.flat(out)),
        }
    }
    /// every node with a mask `a` and a body `b`
    fn pairs(&self, out: &mut Vec<(Vec<u64>, Vec<u64>)>) {
        if let Node::List(l) = self {
            if let (Some(a), Some(b)) = (l.iter().find(|x| x.0 == "a"), l.iter().find(|x| x.0 == "b")) {
                let (mut x, mut y) = (vec![], vec![]);
                a.1.flat(&mut x);
                b.1.flat(&mut y);
                out.push((x, y));
            } else {
                l.iter().for_each(|(_, n)| n.pairs(out));
            }
        }
    }
}
/// (mask, body) pairs an object shows, in the order shown; none if the text is not understood
fn rows_of(d: &dyn std::fmt::Debug, la: usize, lb: usize, q: u64) -> Vec<(Vec<u64>, Vec<u64>)> {
    let s = format!("{d:?}");
    let mut v = vec![];
    if let Some(n) = (Text { s: s.as_bytes(), i: 0 }).node() {
        n.pairs(&mut v);
    }
    if v.iter().any(|(a, b)| a.len() != la || b.len() != lb || a.iter().chain(b).any(|&x| x >= q)) {
        return vec![];
    }
    v
}

// ------------------------------------------------------------------ what is drawn
type Out = Arc<Mutex<Vec<Series>>>;
fn add(out: &Out, name: &str, dist: Dist, row: Vec<i64>) {
    let mut o = out.lock().unwrap();
    match o.iter_mut().find(|s| s.name == name && s.dist == dist && s.rows[0].len() == row.len()) {
        Some(s) => s.rows.push(row),
        None => o.push(Series { name: name.into(), dist, rows: vec![row] }),
    }
}
fn raw(v: &[u64]) -> Vec<i64> {
    v.iter().map(|&x| x as i64).collect()
}
fn cen(v: &[u64], q: u64) -> Vec<i64> {
    v.iter().map(|&x| centred(x, q)).collect()
}
fn gauss(sd: f64) -> Dist {
    Dist::Gauss(sd, 6.0 * sd, false)
}
fn ring_gauss(sd: f64) -> Dist {
    Dist::Gauss(sd, 6.0 * sd, sd == 3.2)
}

fn fhe<C: LWEModulusType, Q: Fx>(p: &Pg, k: &str, c: &Case, me: usize, nt: usize, total: usize, rng: &mut Src, out: &Out)
where
    u64: AsInto<C>,
{
    let params = p.params::<C, Q>();
    let (q, qq) = (p.q(), Q::q());
    let nn = p.ring();
    let key = || KeyGen::generate_secret_key(params, &mut SimRng::new(mix64(c.get("keyseed") as u64)));
    let kind = |t: i64| if t == 0 { Dist::Binary } else { Dist::Ternary };
    // errors of the rows of a ring key in one of the layouts; none unless every row fits its place
    let ring_errs = |rows: &[(Vec<u64>, Vec<u64>)], s: &[u64], lim: u64, layouts: &[&dyn Fn(usize) -> Vec<u64>]| -> Option<Vec<Vec<i64>>> {
        let ph: Vec<Vec<u64>> = rows
            .iter()
            .map(|(a, b)| {
                let (a, b) = (coeffs(&Polynomial::<Q>::from(npoly::<Q>(a))), coeffs(&Polynomial::<Q>::from(npoly::<Q>(b))));
                subv(&b, &negacyclic(&a, s, qq), qq)
            })
            .collect();
        layouts.iter().find_map(|want| {
            let e: Vec<Vec<i64>> = ph.iter().enumerate().map(|(r, p)| cen(&subv(p, &want(r), qq), qq)).collect();
            e.iter().flatten().all(|x| x.unsigned_abs() <= lim).then_some(e)
        })
    };
    // the switching key these parameters have
    let k = match (k, p.steps) {
        ("kslwe", 1) => "ksrlwe",
        ("ksrlwe", 0) => "kslwe",
        ("kslwe" | "ksrlwe", 2) => "brk",
        _ => k,
    };
    // keys of a size worth reading
    let dl = |w: u32, b: u32| w.div_ceil(b) as usize;
    let qb = 64 - qq.leading_zeros();
    let size = match k {
        "kslwe" => dl(p.logq, p.ks_bits) * nn * ((1 << p.ks_bits) - 1) * p.n,
        "ksrlwe" => dl(qb, p.ks_bits) * nn,
        "brk" => p.n * (1 + p.lwe_key as usize) * 2 * dl(qb, p.br_bits) * nn,
        _ => 0,
    };
    let k = if size > 1 << 16 { "enc" } else { k };
    match k {
        "sk" => {
            for _ in 0..total / nt {
                let sk = KeyGen::generate_secret_key(params, rng);
                let _q = rt::quiet();
                add(out, "LWE key", kind(p.lwe_key), cen(&lwe_key(&sk), q));
                if p.steps != 2 {
                    let d = if p.ring_key == 2 { ring_gauss(p.s_ring) } else { kind(p.ring_key) };
                    add(out, "ring key", d, cen(&ring_key(&sk), qq));
                }
            }
        }
        "enc" => {
            let sk = key();
            let s = lwe_key(&sk);
            let d = q / p.t();
            for i in 0..total / nt {
                let m = i & 1 == 1;
                let x = sk.encrypt(m, rng);
                let _q = rt::quiet();
                let (a, _) = lwe_c(&x);
                let e = centred(subm(phase(&x, &s, q), m as u64 * d, q), q);
                add(out, "encryption mask", Dist::Uniform(q), raw(&a));
                // one error per ciphertext: rows of eight
                add(out, "encryption error", gauss(p.s_lwe), vec![e]);
            }
        }
        "kslwe" if p.steps == 0 => {
            let sk = key();
            let s = lwe_key(&sk);
            let z: Vec<u64> = cen(&ring_key(&sk), qq).iter().map(|&v| modq(v as i128, q)).collect();
            let (bs, len) = (1u64 << p.ks_bits, p.logq.div_ceil(p.ks_bits) as usize);
            let k = KeySwitchingLWEKey::<C>::generate(&sk, rng);
            let _q = rt::quiet();
            let rows = rows_of(&k, p.n, 1, q);
            if rows.len() != len * nn * (bs as usize - 1) {
                return ctx::count("keys not understood", 1);
            }
            let mut errs = vec![];
            for (r, (a, b)) in rows.iter().enumerate() {
                let (v, i, j) = (r as u64 % (bs - 1) + 1, r / (bs as usize - 1) % nn, r / (bs as usize - 1) / nn);
                let m = (v * z[i]) << (j as u32 * p.ks_bits) & (q - 1);
                errs.push(centred(subm(lwe_phase(a, b[0], &s, q), m, q), q));
                add(out, "switching key mask", Dist::Uniform(q), raw(a));
            }
            let lim = (6.0 * p.s_ks + 0.5).max((1u64 << ((len as u32 - 1) * p.ks_bits)) as f64 / 4.0);
            if errs.iter().any(|e| e.unsigned_abs() as f64 > lim) {
                return ctx::count("keys not understood", 1);
            }
            // as vectors over the ring key, one per digit and value
            for ch in errs.chunks(8) {
                add(out, "switching key error", gauss(p.s_ks), ch.to_vec());
            }
        }
        "ksrlwe" if p.steps == 1 => {
            let sk = key();
            let m = p.n.next_power_of_two();
            let mut s: Vec<u64> = cen(&lwe_key(&sk), q).iter().map(|&v| modq(v as i128, qq)).collect();
            s.resize(m, 0);
            let z = ring_key(&sk);
            let k = KeySwitchingRLWEKey::<Q>::generate(&sk, rng);
            let _q = rt::quiet();
            let rows = rows_of(&k, m, m, qq);
            let len = (64 - qq.leading_zeros()).div_ceil(p.ks_bits) as usize;
            if rows.len() != nn / m * len {
                return ctx::count("keys not understood", 1);
            }
            rows.iter().for_each(|(a, _)| add(out, "ring switching key mask", Dist::Uniform(qq), raw(a)));
            // chunk by chunk of the ring key, times the powers of the basis
            let want = |r: usize| scalev(&z[r / len * m..(r / len + 1) * m], powm(1 << p.ks_bits, (r % len) as u64, qq), qq);
            match ring_errs(&rows, &s, 1 << ((len as u32 - 1) * p.ks_bits - 2).max(6), &[&want]) {
                Some(e) => e.into_iter().for_each(|e| add(out, "ring switching key error", ring_gauss(p.s_ks), e)),
                None => ctx::count("keys not understood", 1),
            }
        }
        "brk" => {
            let sk = key();
            let s = ring_key(&sk);
            let k = BlindRotationKey::<Q>::generate(&sk, rng);
            let _q = rt::quiet();
            let rows = rows_of(&k, nn, nn, qq);
            let len = (64 - qq.leading_zeros()).div_ceil(p.br_bits) as usize;
            let bits: Vec<bool> = cen(&lwe_key(&sk), q).iter().flat_map(|&v| if p.lwe_key == 0 { vec![v == 1] } else { vec![v == 1, v == -1] }).collect();
            if rows.len() != bits.len() * 2 * len {
                return ctx::count("keys not understood", 1);
            }
            rows.iter().for_each(|(a, _)| add(out, "rotation key mask", Dist::Uniform(qq), raw(a)));
            let place = |r: usize, swap: bool| {
                let (i, half, j) = (r / (2 * len), r / len % 2, r % len);
                let pw = powm(1 << p.br_bits, j as u64, qq);
                let mut v = vec![0; nn];
                if bits[i] && (half == 0) != swap {
                    v = scalev(&negv(&s, qq), pw, qq);
                } else if bits[i] {
                    v[0] = pw;
                }
                v
            };
            match ring_errs(&rows, &s, 1 << ((len as u32 - 1) * p.br_bits - 2).max(6), &[&|r| place(r, false), &|r| place(r, true)]) {
                Some(e) => e.into_iter().for_each(|e| add(out, "rotation key error", ring_gauss(p.s_ring), e)),
                None => ctx::count("keys not understood", 1),
            }
        }
        _ => {}
    }
}

fn lat<F: Fx>(k: &str, o: &Op, c: &Case, me: usize, nt: usize, total: usize, rng: &mut Src, out: &Out) {
    let q = F::q();
    let x = mix64(o.arg(1) as u64) >> 8;
    let logn = (o.arg(5).rem_euclid(8) as u32).min(max_log::<F>().min(6));
    let n = 1usize << logn;
    let qb = 64 - q.leading_zeros();
    let bits = (2 + o.arg(6).rem_euclid(12) as u32).min(qb);
    let basis = Basis::<F>::new(bits);
    let sd = if q < 1000 { 0.0 } else { sigma(o.arg(4)) };
    let chi = FieldDiscreteGaussianSampler::new(0.0, sd).unwrap();
    let mut kr = Rg::new(c.get("keyseed") as u64);
    let s: Vec<u64> = (0..n).map(|_| kr.below(2)).collect();
    let ns = poly::<F>(&s).into_ntt_polynomial();
    let len = basis.decompose_len();
    let val = F::f(x);
    // rows of an RLWE kind: masks as stored, errors after taking the nearest of the messages it may carry
    let rlwe = |name: &str, rows: Vec<RLWE<F>>, raws: Option<Vec<Vec<u64>>>, want: &dyn Fn(usize) -> Vec<u64>| {
        let _q = rt::quiet();
        for (j, r) in rows.iter().enumerate() {
            add(out, &format!("{name} mask"), Dist::Uniform(q), raw(&us(r.a_slice())));
            let e = cen(&subv(&rlwe_phase(r, &s), &want(j), q), q);
            if sd > 0.0 {
                add(out, &format!("{name} error"), ring_gauss(sd), e);
            }
        }
        for r in raws.into_iter().flatten().filter(|_| n > 1) {
            add(out, &format!("{name} transformed mask"), Dist::Uniform(q), raw(&r));
        }
    };
    let zero = |_: usize| vec![0; n];
    let one = |j: usize| {
        let mut v = vec![0; n];
        v[0] = powm(1 << bits, j as u64, q);
        v
    };
    let nsk = |j: usize| scalev(&negv(&s, q), powm(1 << bits, j as u64, q), q);
    let back = |g: &NTTGadgetRLWE<F>| -> (Vec<RLWE<F>>, Vec<Vec<u64>>) { (g.iter().map(|r| RLWE::from(r.clone())).collect(), g.iter().map(|r| us(r.a_slice())).collect()) };
    let per = match k {
        "gadget" => len,
        "rgsw" => 2 * len,
        _ => 1,
    };
    for _ in 0..(total / nt / per).max(1) {
        match k {
            "poly" => {
                let v = [
                    ("Polynomial::random", Dist::Uniform(q), coeffs(&Polynomial::<F>::random(n, rng))),
                    ("NTTPolynomial::random", Dist::Uniform(q), us(NTTPolynomial::<F>::random(n, rng).as_slice())),
                    ("random_with_binary", Dist::Binary, coeffs(&Polynomial::<F>::random_with_binary(n, rng))),
                    ("random_with_ternary", Dist::Ternary, coeffs(&Polynomial::<F>::random_with_ternary(n, rng))),
                    ("random_with_gaussian", ring_gauss(sd), coeffs(&Polynomial::<F>::random_with_gaussian(n, rng, chi))),
                    ("random_with_distribution(uniform)", Dist::Uniform(q), coeffs(&Polynomial::<F>::random_with_distribution(n, rng, FieldUniformSampler::new()))),
                    ("transformed random_with_distribution(ternary)", Dist::Ternary, us(NTTPolynomial::<F>::random_with_distribution(n, rng, FieldTernarySampler).as_slice())),
                ];
                let _q = rt::quiet();
                for (name, d, v) in v {
                    if sd > 0.0 || !matches!(d, Dist::Gauss(..)) {
                        let r = if matches!(d, Dist::Uniform(_)) { raw(&v) } else { cen(&v, q) };
                        add(out, name, d, r);
                    }
                }
            }
            "field" => {
                let u = FieldUniformSampler::<F>::new();
                let cut = sd * (1.5 + (x % 4) as f64);
                let g = FieldDiscreteGaussianSampler::new_with_max(0.0, sd, cut).ok();
                let mut take = |f: &mut dyn FnMut(&mut Src) -> F| -> Vec<u64> { (0..16).map(|_| f(rng).u()).collect() };
                let mut v = vec![
                    ("Field::random", Dist::Uniform(q), take(&mut |r| F::random(r))),
                    ("FieldUniformSampler", Dist::Uniform(q), take(&mut |r| u.sample(r))),
                    ("FieldBinarySampler", Dist::Binary, take(&mut |r| FieldBinarySampler.sample(r))),
                    ("FieldTernarySampler", Dist::Ternary, take(&mut |r| FieldTernarySampler.sample(r))),
                    ("FieldDiscreteGaussianSampler", gauss(sd), take(&mut |r| chi.sample(r))),
                ];
                if let Some(g) = g {
                    v.push(("FieldDiscreteGaussianSampler::new_with_max", Dist::Gauss(sd, cut, false), take(&mut |r| g.sample(r))));
                }
                let _q = rt::quiet();
                for (name, d, v) in v {
                    if sd > 0.0 || !matches!(d, Dist::Gauss(..)) {
                        let r = if matches!(d, Dist::Uniform(_)) { raw(&v) } else { cen(&v, q) };
                        add(out, name, d, r);
                    }
                }
            }
            "rlwe" => rlwe("RLWE zero", vec![RLWE::<F>::generate_random_zero_sample(&ns, chi, rng)], None, &zero),
            "nrlwe" => {
                let (a, b) = (NTTRLWE::<F>::generate_random_zero_sample(&ns, chi, rng), NTTRLWE::<F>::generate_random_value_sample(&ns, val, chi, rng));
                let w = us(a.a_slice());
                rlwe("NTTRLWE zero", vec![RLWE::from(a)], Some(vec![w]), &zero);
                let w = us(b.a_slice());
                rlwe("NTTRLWE value", vec![RLWE::from(b)], Some(vec![w]), &|_| {
                    let mut v = vec![0; n];
                    v[0] = val.u();
                    v
                });
            }
            "gadget" => match x % 6 {
                0 => rlwe("gadget one", GadgetRLWE::<F>::generate_random_one_sample(&ns, basis, chi, rng).iter().cloned().collect(), None, &one),
                1 => rlwe("gadget zero", GadgetRLWE::<F>::generate_random_zero_sample(&ns, basis, chi, rng).iter().cloned().collect(), None, &zero),
                2 => rlwe("gadget key", GadgetRLWE::<F>::generate_random_neg_secret_sample(&ns, basis, chi, rng).iter().cloned().collect(), None, &nsk),
                3 => { let (r, w) = back(&NTTGadgetRLWE::<F>::generate_random_one_sample(&ns, basis, chi, rng)); rlwe("transformed gadget one", r, Some(w), &one) }
                4 => { let (r, w) = back(&NTTGadgetRLWE::<F>::generate_random_zero_sample(&ns, basis, chi, rng)); rlwe("transformed gadget zero", r, Some(w), &zero) }
                _ => { let (r, w) = back(&NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&ns, basis, chi, rng)); rlwe("transformed gadget key", r, Some(w), &nsk) }
            },
            "rgsw" => match x % 4 {
                y @ 0..=1 => {
                    let w = if y == 0 { RGSW::<F>::generate_random_one_sample(&ns, basis, chi, rng) } else { RGSW::<F>::generate_random_zero_sample(&ns, basis, chi, rng) };
                    rlwe("RGSW message", w.c_m().iter().cloned().collect(), None, &|j| if y == 0 { one(j) } else { zero(j) });
                    rlwe("RGSW key", w.c_neg_s_m().iter().cloned().collect(), None, &|j| if y == 0 { nsk(j) } else { zero(j) });
                }
                y => {
                    let w = if y == 2 { NTTRGSW::<F>::generate_random_one_sample(&ns, basis, chi, rng) } else { NTTRGSW::<F>::generate_random_zero_sample(&ns, basis, chi, rng) };
                    let (r, v) = back(w.c_m());
                    rlwe("transformed RGSW message", r, Some(v), &|j| if y == 2 { one(j) } else { zero(j) });
                    let (r, v) = back(w.c_neg_s_m());
                    rlwe("transformed RGSW key", r, Some(v), &|j| if y == 2 { nsk(j) } else { zero(j) });
                }
            },
            "lwe" => {
                let d = 1 + (x % 70) as usize;
                let s32: Vec<u32> = (0..d).map(|i| ((x >> (i % 40)) & 1) as u32).collect();
                let s16: Vec<u16> = s32.iter().map(|&v| v as u16).collect();
                let su: Vec<u64> = s32.iter().map(|&v| v as u64).collect();
                let sd = sigma(o.arg(4)).max(0.3);
                let m = 1u32 << (8 + x % 24);
                let g = DiscreteGaussian::new(m, 0.0, sd).unwrap();
                let a = LWE::generate_random_zero_sample(&s32, m, PowOf2Modulus::<u32>::new(m), g, rng);
                let b = LWE::generate_random_zero_sample(&s16, 12289u16, BarrettModulus::<u16>::new(12289), DiscreteGaussian::new(12289u16, 0.0, sd).unwrap(), rng);
                let _q = rt::quiet();
                let (v, w) = lwe_c(&a);
                add(out, "LWE zero mask", Dist::Uniform(m as u64), raw(&v));
                add(out, "LWE zero error", gauss(sd), vec![centred(lwe_phase(&v, w, &su, m as u64), m as u64)]);
                let (v, w) = lwe_c(&b);
                add(out, "LWE zero mask (prime modulus)", Dist::Uniform(12289), raw(&v));
                add(out, "LWE zero error (prime modulus)", gauss(sd), vec![centred(lwe_phase(&v, w, &su, 12289), 12289)]);
            }
            _ => {
                let d = 1 + (x % 100) as usize;
                let m = 1u32 << (3 + x % 28);
                let sd = sigma(o.arg(4)).max(0.3);
                let cut = sd * (1.5 + (x % 4) as f64);
                let g = DiscreteGaussian::new(1u32 << 20, 0.0, sd).unwrap();
                let h = DiscreteGaussian::new_with_max_limit(1u32 << 20, 0.0, sd, cut).unwrap();
                let ts = TernarySampler::new(m);
                let v = [
                    ("sample_binary_values", Dist::Binary, m, sample_binary_values::<u32, _>(d, rng)),
                    ("sample_ternary_values", Dist::Ternary, m, sample_ternary_values::<u32, _>(m, d, rng)),
                    ("BinarySampler", Dist::Binary, m, (0..16).map(|_| BinarySampler.sample(rng)).collect::<Vec<u32>>()),
                    ("TernarySampler", Dist::Ternary, m, (0..16).map(|_| ts.sample(rng)).collect()),
                    ("DiscreteGaussian", gauss(sd), 1 << 20, (0..16).map(|_| g.sample(rng)).collect()),
                    ("DiscreteGaussian::new_with_max_limit", Dist::Gauss(sd, cut, false), 1 << 20, (0..16).map(|_| h.sample(rng)).collect()),
                ];
                let _q = rt::quiet();
                for (name, dist, m, v) in v {
                    add(out, name, dist, v.iter().map(|&z| centred(z as u64, m as u64)).collect());
                }
            }
        }
    }
    let _ = me;
}

// ------------------------------------------------------------------ tests
/// nats by which `c` successes of `n` exceed what probability `p` makes plausible
fn nats(n: u64, c: u64, p: f64) -> f64 {
    if n == 0 {
        return 0.0;
    }
    let p = p.clamp(0.0, 1.0);
    let f = c as f64 / n as f64;
    let t = |a: f64, b: f64| if a <= 0.0 { 0.0 } else if b <= 0.0 { f64::INFINITY } else { a * (a / b).ln() };
    n as f64 * (t(f, p) + t(1.0 - f, 1.0 - p))
}
/// nats by which `c` exceeds a Poisson mean
fn poisson_nats(c: u64, l: f64) -> f64 {
    let c = c as f64;
    if c <= l || l <= 0.0 {
        return if c > l { f64::INFINITY } else { 0.0 };
    }
    c * (c / l).ln() - c + l
}
/// probability that a centred normal of deviation 1 lies between a and b
fn normal(a: f64, b: f64) -> f64 {
    if b <= a {
        return 0.0;
    }
    let k = 64;
    let h = (b - a) / k as f64;
    let f = |x: f64| (-x * x / 2.0).exp();
    let mut s = f(a) + f(b);
    for i in 1..k {
        s += f(a + h * i as f64) * if i % 2 == 1 { 4.0 } else { 2.0 };
    }
    s * h / 3.0 / (2.0 * std::f64::consts::PI).sqrt()
}
/// probabilities of -m..=m
fn gauss_table(sd: f64, cut: f64) -> Vec<f64> {
    let m = (cut + 0.5).floor() as i64;
    let seg = |a: f64, b: f64| {
        // in pieces, so that the integration stays accurate for a deviation far below one
        let (a, b) = ((a.max(-cut) / sd).max(-40.0), (b.min(cut) / sd).min(40.0));
        if b <= a {
            return 0.0;
        }
        let k = 1 + (b - a) as usize * 4;
        (0..k).map(|i| normal(a + (b - a) * i as f64 / k as f64, a + (b - a) * (i + 1) as f64 / k as f64)).sum()
    };
    let v: Vec<f64> = (-m..=m).map(|k| seg(k as f64 - 0.5, k as f64 + 0.5)).collect();
    let s: f64 = v.iter().sum();
    v.iter().map(|x| x / s).collect()
}
/// probabilities of -21..=21
fn cbd_table() -> Vec<f64> {
    let mut v = vec![1.0f64];
    for i in 0..42 {
        let mut w = vec![0.0; v.len() + 1];
        for (j, x) in v.iter().enumerate() {
            w[j] += x / 2.0;
            w[j + 1] += x / 2.0;
        }
        v = w;
        let _ = i;
    }
    v
}

type Bad = Option<(f64, String)>;
fn note(bad: &mut Bad, x: f64, lim: f64, m: impl FnOnce() -> String) {
    if x > lim && bad.as_ref().map_or(true, |b| x > b.0) {
        *bad = Some((x, m()));
    }
}

/// values of a finite distribution: every value and every tail, pooled and per position, and pairs
fn finite(s: &Series, lo: i64, p: &[f64]) -> Bad {
    let mut bad = None;
    let hi = lo + p.len() as i64 - 1;
    let n: usize = s.rows[0].len();
    let rows = s.rows.len() as u64;
    let mut pos = vec![vec![0u64; p.len()]; n];
    for r in &s.rows {
        for (i, &v) in r.iter().enumerate() {
            if v < lo || v > hi {
                return Some((f64::INFINITY, format!("value {v} outside {lo}..={hi}")));
            }
            pos[i][(v - lo) as usize] += 1;
        }
    }
    let mut judge = |cnt: &[u64], total: u64, what: &str| {
        for (k, &c) in cnt.iter().enumerate() {
            note(&mut bad, nats(total, c, p[k]), NATS, || format!("{what}: value {} occurs {c} times in {total}, probability {:.3e}", lo + k as i64, p[k]));
        }
        let mid = p.len() / 2;
        for t in 0..=mid {
            // |v| >= t around the centre
            let (c, pr) = (0..p.len()).filter(|&k| (k as i64 - mid as i64).unsigned_abs() as usize >= t).fold((0, 0.0), |a, k| (a.0 + cnt[k], a.1 + p[k]));
            note(&mut bad, nats(total, c, pr.min(1.0)), NATS, || format!("{what}: magnitude >= {t} occurs {c} times in {total}, probability {pr:.3e}"));
            if t > 0 {
                let (c, pr) = (mid + t..p.len()).fold((0, 0.0), |a, k| (a.0 + cnt[k], a.1 + p[k]));
                note(&mut bad, nats(total, c, pr), NATS, || format!("{what}: values >= {} occur {c} times in {total}, probability {pr:.3e}", lo + (mid + t) as i64));
            }
        }
    };
    let mut all = vec![0u64; p.len()];
    for v in &pos {
        for (a, b) in all.iter_mut().zip(v) {
            *a += b;
        }
    }
    judge(&all, rows * n as u64, "all coefficients");
    for (i, v) in pos.iter().enumerate() {
        judge(v, rows, &format!("coefficient {i}"));
    }
    let same: f64 = p.iter().map(|x| x * x).sum();
    let opp: f64 = (0..p.len()).map(|k| p[k] * p[p.len() - 1 - k]).sum();
    pairs(s, same, if lo == -hi { opp } else { -1.0 }, &|a, b| a == b, &|a, b| a == -b, &mut bad);
    bad
}
/// Equal (and opposite) values at a distance within a row, and at the same place of nearby rows.
/// Counts are of overlapping pairs, hence the wider limit.
fn pairs(s: &Series, same: f64, opp: f64, eq: &dyn Fn(i64, i64) -> bool, neg: &dyn Fn(i64, i64) -> bool, bad: &mut Bad) {
    let n = s.rows[0].len();
    let lim = NATS * 4.0;
    for lag in 1..n.min(65) {
        let (mut c, mut d, mut t) = (0, 0, 0);
        for r in &s.rows {
            for i in 0..n - lag {
                c += eq(r[i], r[i + lag]) as u64;
                d += neg(r[i], r[i + lag]) as u64;
                t += 1;
            }
        }
        note(bad, nats(t, c, same), lim, || format!("coefficients {lag} apart are equal {c} times in {t}, probability {same:.3e}"));
        if opp >= 0.0 {
            note(bad, nats(t, d, opp), lim, || format!("coefficients {lag} apart are opposite {d} times in {t}, probability {opp:.3e}"));
        }
    }
    for back in 1..=16.min(s.rows.len() - 1) {
        let (mut c, mut d, mut t) = (0, 0, 0);
        for k in back..s.rows.len() {
            for i in 0..n {
                c += eq(s.rows[k][i], s.rows[k - back][i]) as u64;
                d += neg(s.rows[k][i], s.rows[k - back][i]) as u64;
                t += 1;
            }
        }
        note(bad, nats(t, c, same), lim, || format!("coefficients of samples {back} apart are equal {c} times in {t}, probability {same:.3e}"));
        if opp >= 0.0 {
            note(bad, nats(t, d, opp), lim, || format!("coefficients of samples {back} apart are opposite {d} times in {t}, probability {opp:.3e}"));
        }
    }
}
fn uniform(s: &Series, q: u64) -> Bad {
    let mut bad = None;
    if s.rows.iter().flatten().any(|&v| v < 0 || v as u64 >= q) {
        return Some((f64::INFINITY, "value outside the range".into()));
    }
    if q <= 64 {
        return finite(s, 0, &vec![1.0 / q as f64; q as usize]);
    }
    let n = s.rows[0].len();
    // several ways of cutting the range into classes of known size
    let ways: [(&str, u64, Box<dyn Fn(u64) -> u64>); 5] = [
        ("top part", 32, Box::new(move |v| (v as u128 * 32 / q as u128) as u64)),
        ("low bits", 16, Box::new(|v| v % 16)),
        ("remainder by 3", 3, Box::new(|v| v % 3)),
        // what a 32- or 64-bit word reduced without rejection would favour
        ("favoured by multiplying a word", 2, Box::new(move |v| {
            let w: u128 = if q < 1 << 31 { 1 << 32 } else { 1 << 64 };
            let up = |x: u128| (x * w).div_ceil(q as u128);
            ((up(v as u128 + 1) - up(v as u128)) > w / q as u128) as u64
        })),
        ("favoured by reducing a word", 2, Box::new(move |v| {
            let w: u128 = if q < 1 << 31 { 1 << 32 } else { 1 << 64 };
            ((v as u128) < w % q as u128) as u64
        })),
    ];
    for (what, classes, f) in &ways {
        let size: Vec<f64> = match *what {
            "top part" => (0..32u128).map(|k| (((k + 1) * q as u128).div_ceil(32) - (k * q as u128).div_ceil(32)) as f64 / q as f64).collect(),
            "low bits" => (0..16).map(|k| ((q - k).div_ceil(16)) as f64 / q as f64).collect(),
            "remainder by 3" => (0..3).map(|k| ((q - k).div_ceil(3)) as f64 / q as f64).collect(),
            _ => {
                let w: u128 = if q < 1 << 31 { 1 << 32 } else { 1 << 64 };
                let p = (w % q as u128) as f64 / q as f64;
                vec![1.0 - p, p]
            }
        };
        let mut pos = vec![vec![0u64; *classes as usize]; n];
        for r in &s.rows {
            for (i, &v) in r.iter().enumerate() {
                pos[i][f(v as u64) as usize] += 1;
            }
        }
        let rows = s.rows.len() as u64;
        for k in 0..*classes as usize {
            let c: u64 = pos.iter().map(|p| p[k]).sum();
            note(&mut bad, nats(rows * n as u64, c, size[k]), NATS, || format!("all coefficients, {what}: class {k} occurs {c} times in {}, probability {:.4}", rows * n as u64, size[k]));
            for (i, p) in pos.iter().enumerate() {
                note(&mut bad, nats(rows, p[k], size[k]), NATS, || format!("coefficient {i}, {what}: class {k} occurs {} times in {rows}, probability {:.4}", p[k], size[k]));
            }
        }
    }
    let p = 1.0 / q as f64;
    pairs(s, p, p, &|a, b| a == b, &|a, b| (a + b) as u64 % q == 0, &mut bad);
    bad
}

/// Windows of consecutive rows, few enough that drawn vectors have full rank with certainty.
fn dependent(rows: &[(&str, usize, &[i64])], n: usize, q: u64) -> Option<String> {
    // modulo a power of two only the lowest bits form a field
    let p = if q.is_power_of_two() { 2 } else { q };
    let slack = (110.0 / (p as f64).log2()).ceil() as usize;
    let w = n.saturating_sub(slack + 1).min(40).min(rows.len());
    if w < 3 {
        return None;
    }
    let step = (rows.len() / 4).max(w / 2).max(1);
    for from in (0..=rows.len() - w).step_by(step) {
        // reduced rows with their pivots, the constant vector first
        let mut base: Vec<(usize, Vec<u64>)> = vec![(0, vec![1; n])];
        for (k, (name, i, r)) in rows[from..from + w].iter().enumerate() {
            let mut v: Vec<u64> = r.iter().map(|&x| x as u64 % p).collect();
            for (c, b) in &base {
                let f = v[*c];
                if f != 0 {
                    v.iter_mut().zip(b).for_each(|(x, &y)| *x = subm(*x, mulm(f, y, p), p));
                }
            }
            let Some(c) = v.iter().position(|&x| x != 0) else {
                let (a, b, _) = rows[from];
                return Some(format!("{name} number {i} is a linear combination of the {k} masks before it, from {a} number {b} on, modulo {p}"));
            };
            let i = if p == 2 { 1 } else { invm(v[c], p) };
            v.iter_mut().for_each(|x| *x = mulm(*x, i, p));
            base.push((c, v));
        }
        ctx::count("windows of masks judged independent", 1);
    }
    None
}

/// Repeated values and related vectors anywhere in a run.
fn fresh(all: &[Series]) -> Option<String> {
    // vectors of errors and keys with enough entropy to never repeat
    let mut seen: HashMap<(u64, Vec<i64>), String> = HashMap::new();
    for s in all {
        let n = s.rows[0].len();
        let bits = match s.dist {
            Dist::Uniform(q) => (q as f64).log2(),
            Dist::Gauss(sd, cut, _) => if sd >= 0.8 && cut >= 2.0 * sd { (sd * 3.0).log2() } else { 0.0 },
            Dist::Binary => 1.0,
            Dist::Ternary => 1.5,
        } * n as f64;
        if bits < 110.0 {
            continue;
        }
        for (i, r) in s.rows.iter().enumerate() {
            let here = format!("{} number {i}", s.name);
            let forms: Vec<(u64, Vec<i64>)> = match s.dist {
                Dist::Uniform(q) => {
                    let u: Vec<u64> = r.iter().map(|&x| x as u64).collect();
                    let mut f = vec![(q, r.clone())];
                    // up to a factor
                    if let Some(&x) = u.iter().find(|&&x| if q.is_power_of_two() { x & 1 == 1 } else { x != 0 }) {
                        let inv = if q.is_power_of_two() { powm(x, q / 2 - 1, q) } else { invm(x, q) };
                        f.push((q ^ 1 << 62, u.iter().map(|&y| mulm(y, inv, q) as i64).collect()));
                    }
                    // up to a constant
                    if bits - bits / n as f64 >= 110.0 {
                        f.push((q ^ 2 << 62, u.windows(2).map(|w| subm(w[1], w[0], q) as i64).collect()));
                    }
                    // up to order and sign
                    let lf: f64 = (1..=n).map(|k| 1.0 + (k as f64).log2()).sum();
                    if bits - lf >= 110.0 {
                        let mut m: Vec<i64> = u.iter().map(|&y| y.min(q - y) as i64).collect();
                        m.sort();
                        f.push((q ^ 3 << 62, m));
                    }
                    f
                }
                _ => {
                    let m: Vec<i64> = r.iter().map(|x| -x).collect();
                    vec![(1, r.clone().max(m))]
                }
            };
            for f in forms {
                let how = ["equal or opposite", "equal up to a factor", "equal up to a constant", "equal up to order and sign"][(f.0 >> 62) as usize];
                if let Some(o) = seen.insert(f, here.clone()) {
                    if o == here {
                        continue;
                    }
                    return Some(format!("{here} and {o} are {how}"));
                }
            }
        }
    }
    // masks that are combinations of earlier ones (and of a constant)
    let mut kin: std::collections::BTreeMap<(u64, usize), Vec<&Series>> = Default::default();
    for s in all {
        if let Dist::Uniform(q) = s.dist {
            // the transformed form of a mask is another view of the same values
            if !s.name.ends_with(" transformed mask") {
                kin.entry((q, s.rows[0].len())).or_default().push(s);
            }
        }
    }
    for ((q, n), v) in kin {
        // each kind by itself, then all kinds in turns
        for s in &v {
            let rows: Vec<(&str, usize, &[i64])> = s.rows.iter().enumerate().map(|(i, r)| (&s.name[..], i, &r[..])).collect();
            if let Some(m) = dependent(&rows, n, q) {
                return Some(m);
            }
        }
        if v.len() > 1 {
            let most = v.iter().map(|s| s.rows.len()).max().unwrap_or(0);
            let rows: Vec<(&str, usize, &[i64])> = (0..most).flat_map(|i| v.iter().filter_map(move |s| s.rows.get(i).map(|r| (&s.name[..], i, &r[..])))).collect();
            if let Some(m) = dependent(&rows, n, q) {
                return Some(m);
            }
        }
    }
    // single values of large ranges
    let mut by: HashMap<u64, HashMap<u64, u64>> = HashMap::new();
    for s in all {
        if let Dist::Uniform(q) = s.dist {
            // the transformed and the plain form of one mask are different views of the same values
            if q > 1 << 24 {
                let m = by.entry(q).or_default();
                for &v in s.rows.iter().flatten() {
                    *m.entry((v as u64).min(q - v as u64)).or_insert(0) += 1;
                }
            }
        }
    }
    for (q, m) in by {
        let n: u64 = m.values().sum();
        let dup: u64 = m.values().map(|&c| c * (c - 1) / 2).sum();
        let mean = n as f64 * n as f64 / 2.0 / (q as f64 / 2.0);
        let x = poisson_nats(dup, mean);
        if x > NATS * 2.0 {
            return Some(format!("modulus {q}: {dup} repeated mask values among {n}, {mean:.2} expected"));
        }
    }
    None
}

fn judge(s: &Series) -> Bad {
    ctx::count("coefficients judged", (s.rows.len() * s.rows[0].len()) as u64);
    match s.dist {
        Dist::Uniform(q) => uniform(s, q),
        Dist::Binary => finite(s, 0, &[0.5, 0.5]),
        Dist::Ternary => finite(s, -1, &[0.25, 0.5, 0.25]),
        Dist::Gauss(sd, cut, cbd) => {
            let t = gauss_table(sd.max(1e-12), cut);
            let a = finite(s, -(t.len() as i64 / 2), &t);
            if cbd && a.is_some() {
                finite(s, -21, &cbd_table()).and(a)
            } else {
                a
            }
        }
    }
}

const FHE: [&str; 5] = ["sk", "enc", "kslwe", "ksrlwe", "brk"];
const LAT: [&str; 8] = ["poly", "field", "rlwe", "nrlwe", "gadget", "rgsw", "lwe", "vec"];

fn exec(c: &Case) {
    let c = Arc::new(c.clone());
    let nt = 1 + c.get("threads").rem_euclid(40) as usize;
    let out: Out = Arc::new(Mutex::new(vec![]));
    let (c2, o2) = (c.clone(), out.clone());
    team(nt, move |me| {
        // a stream of its own for every thread
        let seed = mix64(c2.get("stream") as u64 ^ mix64(me as u64));
        let mut rng = if c2.get("own") == 1 { Src::Own(Box::new(Prg::from_seed(Block::from([seed, mix64(seed)])))) } else { Src::Sim(SimRng::new(seed)) };
        // an attempt that dies must not make later draws repeat earlier ones
        for o in &c2.ops {
            let total = o.arg(2).clamp(8, 4000) as usize;
            let f = || {
                if FHE.contains(&o.k.as_str()) {
                    let p = Pg::load(&c2);
                    with_cq!(p.pair, C, Q => fhe::<C, Q>(&p, &o.k, &c2, me, nt, total, &mut rng, &o2))
                } else {
                    with_field!(c2.get("field") + o.arg(3).rem_euclid(2) * c2.get("field2"), F => lat::<F>(&o.k, o, &c2, me, nt, total, &mut rng, &o2))
                }
            };
            ctx::must(&o.k, f);
        }
    });
    if ctx::failed() {
        return;
    }
    let _q = rt::quiet();
    let mut all = out.lock().unwrap();
    all.sort_by(|a, b| (&a.name, a.rows[0].len()).cmp(&(&b.name, b.rows[0].len())));
    // single errors become rows of eight
    for s in all.iter_mut() {
        if s.rows[0].len() == 1 && s.rows.len() >= 8 {
            let v: Vec<i64> = s.rows.iter().flatten().copied().collect();
            s.rows = v.chunks_exact(8).map(|x| x.to_vec()).collect();
        }
    }
    let mut big = 0;
    for s in all.iter() {
        ctx::event(&s.name, &[s.rows.len() as u64, s.rows[0].len() as u64, ctx::digest(s.rows.iter().flatten().map(|&v| v as u64))]);
        ctx::state(&[crate::rg::hash_str(&s.name), s.rows[0].len() as u64]);
        ctx::count(&format!("series of {}", s.name), 1);
        big = big.max(s.rows.len() * s.rows[0].len());
        if let Some((x, m)) = judge(s) {
            ctx::fail("distribution", format!("{}, {} samples of {}, declared {:?}: {m} ({x:.0} nats)", s.name, s.rows.len(), s.rows[0].len(), s.dist));
            return;
        }
    }
    if let Some(m) = fresh(&all) {
        ctx::fail("reuse", m);
        return;
    }
    if big >= 500 {
        ctx::nontrivial();
    }
    ctx::sample(all.iter().map(|s| format!("{} {}x{}", s.name, s.rows.len(), s.rows[0].len())).collect::<Vec<_>>().join("; "));
}

fn gen(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P15");
    let heavy = i % 2 == 0;
    let small = !heavy || r.chance(700);
    gen_params(r, &mut c, true, small);
    c.set("threads", r.below(4) as i64);
    c.set("field", r.below(12) as i64);
    c.set("field2", r.below(12) as i64);
    c.set("keyseed", r.below(1 << 30) as i64);
    c.set("stream", r.below(1 << 40) as i64);
    c.set("own", r.chance(250) as i64);
    let bits = if tier == "thorough" { 12 } else { 11 };
    for _ in 0..1 + r.below(3) {
        let k = if heavy { *r.pick(&FHE) } else { *r.pick(&LAT) };
        let total = (if k == "sk" || k == "enc" { 200 } else { 60 }) + r.logu(bits) as i64;
        c.op(k, &[0, r.below(1 << 20) as i64, total, r.below(4) as i64, r.below(8) as i64, r.below(7) as i64, r.below(12) as i64]);
    }
    c.sched = gen_sched(r, 20, true);
    c
}

pub static P15: PropDef = PropDef {
    id: "P15",
    neighbour: true,
    gen,
    exec,
    outer: None,
    runs_quick: 4000,
    runs_thorough: 60000,
    race: 200,
    rule: "a run is nontrivial when at least one series of 500 or more coefficients was judged; distinct by history of every coefficient, and by schedule",
    real: &["algebra and lattice samplers and random sample constructors", "fhe_core key generation, encryption, key switching and blind rotation keys"],
    stub: STUB_OS,
    assumptions: &[
        "the simulated random stream is uniform; deviations with a chance above e^-40 under the declared distribution go unnoticed",
        "the centred binomial used for the deviation 3.2 counts as that Gaussian; key rows are read from their Debug text and skipped when it is not understood",
    ],
};
