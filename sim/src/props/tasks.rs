//! Randomised and process-dependent operations with a comparable result, shared by P07 and P11.
use super::session::{gv, ngv, nrl, rl};
use crate::case::{Case, Op};
use crate::ctx;
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::{with_cq, with_field};
use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::transformation::AbstractNTT;
use algebra::utils::{Block, Prg, Prime};
use algebra::{AsInto, Basis, Field, FieldBinarySampler, FieldDiscreteGaussianSampler, FieldTernarySampler, FieldUniformSampler, NTTField, NTTPolynomial, Polynomial, PrimeField};
use fhe_core::{BlindRotationKey, KeySwitchingLWEKey, KeySwitchingRLWEKey, LWECiphertext, LWEModulusType, SecretKeyPack};
use lattice::*;
use rand::distributions::Distribution;
use rand::{RngCore, SeedableRng};
use std::fmt::Write;
use zkfhe::bfhe::Evaluator;
use zkfhe::KeyGen;

struct Fnv(u64);
impl Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
/// digest of everything an object shows of itself
pub fn shown(d: &dyn std::fmt::Debug) -> u64 {
    let _q = crate::rt::quiet();
    let mut f = Fnv(0xcbf29ce484222325);
    let _ = write!(f, "{d:?}");
    f.0
}
pub fn skv<C: LWEModulusType, Q: Fx>(sk: &SecretKeyPack<C, Q>) -> Vec<u64> {
    let mut v = lwe_key(sk);
    v.extend(ring_key(sk));
    v.extend(us(sk.ntt_ring_secret_key().as_slice()));
    v
}
pub fn ctv<C: LWEModulusType>(c: &LWECiphertext<C>) -> Vec<u64> {
    let (mut a, b) = lwe_c(c);
    a.push(b);
    a
}

pub const FHE: [&str; 7] = ["sk", "evk", "brk", "kslwe", "ksrlwe", "enc", "gate"];
pub const LAT: [&str; 9] = ["poly", "field", "rlwe", "nrlwe", "gadget", "rgsw", "lwe", "vec", "prgseed"];
pub const ENV: [&str; 5] = ["table", "init", "root", "prime", "prgnew"];

fn fhe<C: LWEModulusType, Q: Fx>(p: &Pg, k: &str, x: u64, rng: &mut SimRng) -> Vec<u64>
where
    u64: AsInto<C>,
{
    let key = || KeyGen::generate_secret_key(p.params::<C, Q>(), &mut SimRng::new(x ^ 0x5eed));
    match k {
        "sk" => {
            let sk = KeyGen::generate_secret_key(p.params::<C, Q>(), rng);
            skv(&sk)
        }
        "evk" => {
            let sk = key();
            let ev = Evaluator::<C, Q>::new(&sk, rng);
            let mut v = vec![shown(&ev)];
            if p.gates_ok() {
                let (a, b) = (sk.encrypt(x & 1 == 1, rng), sk.encrypt(x & 2 == 2, rng));
                v.extend(ctv(&ev.nand(&a, &b)));
            }
            v
        }
        "brk" => vec![shown(&BlindRotationKey::<Q>::generate(&key(), rng))],
        "kslwe" if p.ring_key != 2 && p.steps == 0 => vec![shown(&KeySwitchingLWEKey::<C>::generate(&key(), rng))],
        "ksrlwe" if p.steps == 1 => vec![shown(&KeySwitchingRLWEKey::<Q>::generate(&key(), rng))],
        "gate" if p.gates_ok() => {
            let sk = key();
            let ev = Evaluator::<C, Q>::new(&sk, rng);
            let c: Vec<LWECiphertext<C>> = (0..3).map(|i| sk.encrypt((x >> i) & 1 == 1, rng)).collect();
            ctv(&match (x >> 3) % 4 {
                0 => ev.xor(&c[0], &c[1]),
                1 => ev.majority(&c[0], &c[1], &c[2]),
                2 => ev.mux(&c[0], &c[1], &c[2]),
                _ => ev.nor(&c[0], &c[1]),
            })
        }
        _ => {
            let sk = key();
            (0..1 + x % 4).flat_map(|i| ctv(&sk.encrypt((x >> (4 + i)) & 1 == 1, rng))).collect()
        }
    }
}

fn lat<F: Fx>(o: &Op, k: &str, x: u64, rng: &mut SimRng) -> Vec<u64> {
    let q = F::q();
    let logn = (o.arg(5).rem_euclid(8) as u32).min(max_log::<F>().min(6));
    let n = 1usize << logn;
    let qb = 64 - q.leading_zeros();
    let basis = Basis::<F>::new((1 + o.arg(6).rem_euclid(12) as u32).min(qb));
    let sd = if q < 100 { 1e-9 } else { sigma(o.arg(4)) };
    let chi = FieldDiscreteGaussianSampler::new(0.0, sd).unwrap();
    let s = || poly::<F>(&(0..n).map(|i| (x >> (i % 40)) & 1).collect::<Vec<_>>()).into_ntt_polynomial();
    match k {
        "poly" => {
            let mut v = coeffs(&Polynomial::<F>::random(n, rng));
            v.extend(coeffs(&Polynomial::<F>::random_with_binary(n, rng)));
            v.extend(coeffs(&Polynomial::<F>::random_with_ternary(n, rng)));
            v.extend(coeffs(&Polynomial::<F>::random_with_gaussian(n, rng, chi)));
            v.extend(us(NTTPolynomial::<F>::random(n, rng).as_slice()));
            v.extend(coeffs(&Polynomial::<F>::random_with_distribution(n, rng, FieldTernarySampler)));
            v.extend(us(NTTPolynomial::<F>::random_with_distribution(n, rng, FieldBinarySampler).as_slice()));
            v
        }
        "field" => {
            let u = FieldUniformSampler::<F>::new();
            (0..1 + x % 20).map(|i| if i % 2 == 0 { F::random(rng).u() } else { u.sample(rng).u() }).collect()
        }
        "rlwe" => rl(&RLWE::<F>::generate_random_zero_sample(&s(), chi, rng)),
        "nrlwe" => {
            let mut v = nrl(&NTTRLWE::<F>::generate_random_zero_sample(&s(), chi, rng));
            v.extend(nrl(&NTTRLWE::<F>::generate_random_value_sample(&s(), F::f(x), chi, rng)));
            v
        }
        "gadget" => match x % 4 {
            0 => gv(&GadgetRLWE::<F>::generate_random_one_sample(&s(), basis, chi, rng)),
            1 => gv(&GadgetRLWE::<F>::generate_random_zero_sample(&s(), basis, chi, rng)),
            2 => ngv(&NTTGadgetRLWE::<F>::generate_random_one_sample(&s(), basis, chi, rng)),
            _ => ngv(&NTTGadgetRLWE::<F>::generate_random_neg_secret_sample(&s(), basis, chi, rng)),
        },
        "rgsw" => match x % 4 {
            0 => { let w = RGSW::<F>::generate_random_one_sample(&s(), basis, chi, rng); gv(w.c_m()).into_iter().chain(gv(w.c_neg_s_m())).collect() }
            1 => { let w = RGSW::<F>::generate_random_zero_sample(&s(), basis, chi, rng); gv(w.c_m()).into_iter().chain(gv(w.c_neg_s_m())).collect() }
            2 => { let w = NTTRGSW::<F>::generate_random_one_sample(&s(), basis, chi, rng); ngv(w.c_m()).into_iter().chain(ngv(w.c_neg_s_m())).collect() }
            _ => { let w = NTTRGSW::<F>::generate_random_zero_sample(&s(), basis, chi, rng); ngv(w.c_m()).into_iter().chain(ngv(w.c_neg_s_m())).collect() }
        },
        "lwe" => {
            let d = 1 + (x % 40) as usize;
            let s32: Vec<u32> = (0..d).map(|i| ((x >> (i % 40)) & 1) as u32).collect();
            let s16: Vec<u16> = s32.iter().map(|&v| v as u16).collect();
            let sd = sigma(o.arg(4));
            let m = 1u32 << (8 + x % 24);
            let mut v = ctv(&LWE::generate_random_zero_sample(&s32, m, PowOf2Modulus::<u32>::new(m), DiscreteGaussian::new(m, 0.0, sd).unwrap(), rng));
            v.extend(ctv(&LWE::generate_random_zero_sample(&s16, 12289u16, BarrettModulus::<u16>::new(12289), DiscreteGaussian::new(12289u16, 0.0, sd).unwrap(), rng)));
            v
        }
        "vec" => {
            let d = (x % 70) as usize;
            let mut v: Vec<u64> = sample_binary_values::<u32, _>(d, rng).iter().map(|&w| w as u64).collect();
            v.extend(sample_ternary_values::<u32, _>(512, d, rng).iter().map(|&w| w as u64));
            v
        }
        "prgseed" => {
            let mut p = match Prg::from_rng(&mut *rng) {
                Ok(p) => p,
                Err(e) => panic!("{RNG_FAILURE}: {e}"),
            };
            let mut w = [0u8; 48];
            p.fill_bytes(&mut w);
            let mut y = Prg::from_seed(Block::from([x, !x]));
            w.iter().map(|&b| b as u64).chain([p.next_u64(), y.next_u64()]).collect()
        }
        "table" => {
            let t = F::get_ntt_table(logn).unwrap();
            let p: Vec<u64> = (0..n as u64).map(|i| mix64(x ^ i) % q).collect();
            let mut v = us(t.transform(&poly::<F>(&p)).as_slice());
            v.push(t.root().u());
            v.extend(coeffs(&t.inverse_transform(&npoly::<F>(&p))));
            v
        }
        "init" => {
            let ls: Vec<u32> = (0..1 + x % 4).map(|i| (mix64(x + i) % (max_log::<F>().min(6) as u64 + 1)) as u32).collect();
            F::init_ntt_table(&ls).unwrap();
            ls.iter().flat_map(|&l| {
                let t = F::get_ntt_table(l).unwrap();
                let mut v = us(t.transform(&poly::<F>(&(0..1u64 << l).collect::<Vec<_>>())).as_slice());
                v.push(t.root().u());
                v
            }).collect()
        }
        "root" => {
            let deg: u64 = 1 << (1 + logn);
            let (any, least) = F::prim_roots(deg).unwrap();
            // any root of the requested order will do; the minimal one is unique
            vec![(powm(any, deg / 2, q) == q - 1) as u64, least, F::is_prime_field() as u64]
        }
        "prime" => {
            let mut r = Rg::new(x);
            (0..1 + x % 4).map(|_| {
                let v = [65537u64, 132120577, 1073692673, 4611686018425815041, 561, 3215031751, 3825123056546413051, 88357, 37439201, 1 + 2 * r.below(1 << 30)][r.below(10) as usize];
                if v < 1 << 30 { BarrettModulus::<u32>::new(v as u32).probably_prime(40) as u64 } else { BarrettModulus::<u64>::new(v).probably_prime(40) as u64 }
            }).collect()
        }
        "prgnew" => {
            let (mut a, mut b) = (Prg::new(), Prg::new());
            vec![((a.next_u64(), a.next_u64()) != (b.next_u64(), b.next_u64())) as u64]
        }
        _ => vec![],
    }
}

/// The field an operation works over.
pub fn field_of(c: &Case, o: &Op) -> i64 {
    c.get("field") + o.arg(3).rem_euclid(2) * c.get("field2")
}
/// op arguments: [thread, seed, ?, field, sigma, log n, basis bits]
pub fn task(c: &Case, o: &Op, rng: &mut SimRng) -> Vec<u64> {
    let x = mix64(o.arg(1) as u64) >> 8;
    if FHE.contains(&o.k.as_str()) {
        let p = Pg::load(c);
        with_cq!(p.pair, C, Q => fhe::<C, Q>(&p, &o.k, x, rng))
    } else {
        with_field!(field_of(c, o), F => lat::<F>(o, &o.k, x, rng))
    }
}
pub fn uses_rng(k: &str) -> bool {
    !ENV.contains(&k)
}
pub fn digest(v: &[u64]) -> u64 {
    ctx::digest(v.iter().copied())
}
