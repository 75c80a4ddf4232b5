//! Parameter sets for the FHE scenarios, and reference computations on keys and ciphertexts.
use crate::case::Case;
use crate::fields::*;
use crate::rg::Rg;
use algebra::{AsInto, Field};
use fhe_core::{
    ConstParameters, LWECiphertext, LWEModulusType, LWESecretKeyType, Parameters, RingSecretKeyType, SecretKeyPack, Steps,
};

/// (ciphertext modulus type bits, field) pairs
pub const PAIRS: i64 = 8;

#[macro_export]
macro_rules! with_cq {
    ($k:expr, $C:ident, $Q:ident => $e:expr) => {
        match ($k).rem_euclid($crate::fhe::PAIRS) {
            0 => { type $C = u16; type $Q = $crate::fields::F30A; $e }
            1 => { type $C = u32; type $Q = $crate::fields::DefaultFieldU32; $e }
            2 => { type $C = u64; type $Q = $crate::fields::F40; $e }
            3 => { type $C = u16; type $Q = $crate::fields::DefaultFieldU32; $e }
            4 => { type $C = u32; type $Q = $crate::fields::F62; $e }
            5 => { type $C = u64; type $Q = $crate::fields::F30B; $e }
            6 => { type $C = u8; type $Q = $crate::fields::F30A; $e }
            _ => { type $C = u32; type $Q = $crate::fields::F27; $e }
        }
    };
}
pub fn pair_q(k: i64) -> u64 {
    with_cq!(k, C, Q => { let _ = C::MAX; <Q as Fx>::q() })
}
pub fn pair_cbits(k: i64) -> u32 {
    with_cq!(k, C, Q => { let _ = <Q as Fx>::NAME; C::BITS })
}
pub fn pair_name(k: i64) -> String {
    with_cq!(k, C, Q => format!("u{}/{}", C::BITS, <Q as Fx>::NAME))
}

/// A parameter set as plain numbers.
#[derive(Clone, Debug)]
pub struct Pg {
    pub pair: i64,
    pub n: usize,
    pub logn: u32,
    pub logq: u32,
    pub logt: u32,
    /// 0 binary 1 ternary
    pub lwe_key: i64,
    /// 0 binary 1 ternary 2 gaussian
    pub ring_key: i64,
    /// 0 BrMsKs 1 BrKsMs 2 BrMs
    pub steps: i64,
    pub br_bits: u32,
    pub ks_bits: u32,
    pub s_lwe: f64,
    pub s_ring: f64,
    pub s_ks: f64,
}
const SIGMAS: [f64; 8] = [1e-9, 0.3, 0.8, 1.0, 2.0, 3.2, 6.4, 0.0];
pub fn sigma(i: i64) -> f64 {
    SIGMAS[i.rem_euclid(8) as usize]
}

impl Pg {
    pub fn ring(&self) -> usize {
        1 << self.logn
    }
    pub fn q(&self) -> u64 {
        1 << self.logq
    }
    pub fn t(&self) -> u64 {
        1 << self.logt
    }
    /// Reads the set out of a case, forcing every value into its range.
    pub fn load(c: &Case) -> Pg {
        let pair = c.get("pair").rem_euclid(PAIRS);
        let qb = 64 - pair_q(pair).leading_zeros();
        let cb = pair_cbits(pair);
        let maxn = if cb == 8 { 6 } else { 10 };
        let logn = (c.get("logn") as u32).clamp(2, maxn);
        let steps = c.get("steps").rem_euclid(3);
        let mut n = (c.get("n").max(1) as usize).min(1 << logn);
        if steps == 2 {
            n = 1 << logn;
        }
        let mut ring_key = c.get("ring_key").rem_euclid(3);
        if ring_key == 2 && steps != 1 {
            ring_key = 1;
        }
        let logt = (c.get("logt") as u32).clamp(1, cb - 3);
        let logq = (c.get("logq") as u32).clamp((logt + 1).max(3), cb - 1);
        Pg {
            pair,
            n,
            logn,
            logq,
            logt,
            lwe_key: c.get("lwe_key").rem_euclid(2),
            ring_key,
            steps,
            br_bits: (c.get("br_bits") as u32).clamp(1, qb.min(16)),
            ks_bits: if steps == 0 { (c.get("ks_bits") as u32).clamp(1, logq.min(7)) } else { (c.get("ks_bits") as u32).clamp(1, qb.min(16)) },
            s_lwe: sigma(c.get("s_lwe")),
            s_ring: sigma(c.get("s_ring")),
            // noise has to fit its modulus
            s_ks: if steps != 1 && 6.0 * sigma(c.get("s_ks")) + 1.0 >= (1u64 << logq) as f64 / 2.0 { sigma(0) } else { sigma(c.get("s_ks")) },
        }
    }
    pub fn params<C: LWEModulusType, Q: Fx>(&self) -> Parameters<C, Q>
    where
        u64: algebra::AsInto<C>,
    {
        Parameters::<C, Q>::new(ConstParameters {
            lwe_dimension: self.n,
            lwe_plain_modulus: self.t().as_into(),
            lwe_cipher_modulus: self.q().as_into(),
            lwe_noise_standard_deviation: self.s_lwe,
            lwe_secret_key_type: if self.lwe_key == 0 { LWESecretKeyType::Binary } else { LWESecretKeyType::Ternary },
            ring_dimension: self.ring(),
            ring_modulus: <Q as Field>::MODULUS_VALUE,
            ring_noise_standard_deviation: self.s_ring,
            ring_secret_key_type: [RingSecretKeyType::Binary, RingSecretKeyType::Ternary, RingSecretKeyType::Gaussian][self.ring_key as usize],
            blind_rotation_basis_bits: self.br_bits,
            key_switching_basis_bits: self.ks_bits,
            key_switching_standard_deviation: self.s_ks,
            steps: [Steps::BrMsKs, Steps::BrKsMs, Steps::BrMs][self.steps as usize],
        })
        .expect("valid parameters")
    }
    /// Predicted standard deviation of a bootstrapped ciphertext's noise, in units of the LWE modulus.
    pub fn sigma_out(&self) -> f64 {
        let qq = pair_q(self.pair) as f64;
        let q = self.q() as f64;
        let nn = self.ring() as f64;
        let n = self.n as f64;
        let qb = 64 - pair_q(self.pair).leading_zeros();
        let l = qb.div_ceil(self.br_bits) as f64;
        let b = (1u64 << self.br_bits) as f64;
        let mult = if self.lwe_key == 1 { 2.0 } else { 1.0 };
        let br = n * mult * 2.0 * l * nn * (b * b / 3.0) * self.s_ring.powi(2) * (q / qq).powi(2);
        let (ms, ks) = match self.steps {
            0 => {
                let lk = self.logq.div_ceil(self.ks_bits) as f64;
                ((1.0 + nn / 2.0) / 12.0, nn * lk * self.s_ks.powi(2))
            }
            1 => {
                let lk = qb.div_ceil(self.ks_bits) as f64;
                let b = (1u64 << self.ks_bits) as f64;
                ((1.0 + n / 2.0) / 12.0, nn * lk * (b * b / 3.0) * self.s_ks.powi(2) * (q / qq).powi(2))
            }
            _ => ((1.0 + nn / 2.0) / 12.0, 0.0),
        };
        (br + ms + ks).sqrt()
    }
    /// Gates are correct except with negligible probability.
    pub fn gates_ok(&self) -> bool {
        let q = self.q() as f64;
        let nn = self.ring() as f64;
        let e = self.sigma_out().max(self.s_lwe);
        let pre = if self.logq > self.logn + 1 { (1.0 + self.n as f64 / 2.0) / 12.0 } else { 0.0 };
        let scale = 2.0 * nn / q;
        let total = (3.0 * e * e * scale * scale + pre).sqrt();
        self.logt == 2 && self.logq >= 5 && 7.5 * e + 0.5 < q / 16.0 && 7.5 * total + 1.0 < nn / 4.0
    }
}

/// Sets random parameters; `gates` demands that gates work with overwhelming probability.
pub fn gen_params(r: &mut Rg, c: &mut Case, gates: bool, small: bool) {
    for _ in 0..400 {
        let pair = r.below(PAIRS as u64) as i64;
        c.set("pair", pair);
        let logn = r.range(4, if small { 6 } else { 8 });
        c.set("logn", logn);
        let steps = r.below(3) as i64;
        c.set("steps", steps);
        c.set("n", if r.chance(500) { 1 << r.range(2, logn.min(5)) } else { r.range(3, if small { 20 } else { 48 }) });
        c.set("logq", match r.below(5) { 0 => logn + 1, 1 => logn, 2 => logn - 1, 3 => logn + 2 + r.below(3) as i64, _ => r.range(6, 16) });
        c.set("logt", 2);
        c.set("lwe_key", r.below(2) as i64);
        c.set("ring_key", r.below(3) as i64);
        c.set("br_bits", r.range(1, 9));
        c.set("ks_bits", if steps == 0 { r.range(1, 4) } else { r.range(1, 10) });
        for k in ["s_lwe", "s_ring", "s_ks"] {
            c.set(k, r.below(7) as i64);
        }
        if r.chance(150) {
            for k in ["s_lwe", "s_ring", "s_ks"] {
                c.set(k, 0);
            }
        }
        if !gates || Pg::load(c).gates_ok() {
            return;
        }
    }
    for (k, v) in [("pair", 0), ("logn", 5), ("steps", 1), ("n", 8), ("logq", 9), ("logt", 2), ("lwe_key", 1), ("ring_key", 1), ("br_bits", 4), ("ks_bits", 4), ("s_lwe", 5), ("s_ring", 5), ("s_ks", 5)] {
        c.set(k, v);
    }
}

// ---------------------------------------------------------------- reference views of keys and ciphertexts
pub fn cu<C: LWEModulusType>(v: C) -> u64 {
    AsInto::<u64>::as_into(v)
}
pub fn lwe_c<C: LWEModulusType>(c: &LWECiphertext<C>) -> (Vec<u64>, u64) {
    (c.a().iter().map(|&x| cu(x)).collect(), cu(c.b()))
}
pub fn lwe_key<C: LWEModulusType, Q: Fx>(sk: &SecretKeyPack<C, Q>) -> Vec<u64> {
    sk.lwe_secret_key().iter().map(|&x| cu(x)).collect()
}
pub fn ring_key<C: LWEModulusType, Q: Fx>(sk: &SecretKeyPack<C, Q>) -> Vec<u64> {
    us(sk.ring_secret_key().as_slice())
}
/// b - <a, s> modulo q
pub fn phase<C: LWEModulusType>(c: &LWECiphertext<C>, s: &[u64], q: u64) -> u64 {
    let (a, b) = lwe_c(c);
    if a.len() != s.len() {
        return u64::MAX;
    }
    let mut acc = b;
    for (x, y) in a.iter().zip(s) {
        acc = acc.wrapping_sub(x.wrapping_mul(*y));
    }
    acc & (q - 1)
}
pub fn cdigest<C: LWEModulusType>(c: &LWECiphertext<C>) -> u64 {
    let (a, b) = lwe_c(c);
    crate::ctx::digest(a.into_iter().chain([b]))
}
/// nearest multiple of q/t, and the distance to it
pub fn nearest(phase: u64, q: u64, t: u64) -> (u64, u64) {
    let d = q / t;
    let m = (phase + d / 2) / d;
    let e = (phase as i64 - (m * d) as i64).unsigned_abs();
    (m % t, e)
}
/// A ciphertext of the client's that shares almost everything with another one of value `bit`;
/// returns its value too. kinds: 0 one mask coefficient moved so that the value flips, 1 mask and body
/// moved so that the value stays, 2 two mask coefficients moved in opposite directions, 3 the body moved
pub fn variant<C: LWEModulusType>(ct: &LWECiphertext<C>, bit: bool, kind: i64, seed: u64, s: &[i64], q: u64) -> (LWECiphertext<C>, bool)
where
    u64: AsInto<C>,
{
    let mut r = Rg::new(seed);
    let (mut a, mut b) = lwe_c(ct);
    let up = if bit { 3 * (q / 4) } else { q / 4 };
    let units: Vec<usize> = (0..a.len().min(s.len())).filter(|&i| s[i].abs() == 1).collect();
    let zeros: Vec<usize> = (0..a.len().min(s.len())).filter(|&i| s[i] == 0).collect();
    let mut flip = true;
    let m = q - 1;
    // phase = b - <a, s>
    let by = |a: &mut Vec<u64>, i: usize, d: u64| a[i] = a[i].wrapping_sub(if s[i] < 0 { d.wrapping_neg() } else { d }) & m;
    match (kind.rem_euclid(4), units.len(), zeros.len()) {
        (1, 1.., _) => {
            let (i, d) = (*r.pick(&units), 1 + r.below(q - 1));
            by(&mut a, i, d);
            b = b.wrapping_sub(d) & m;
            flip = false;
        }
        (2, 1.., 1..) => {
            let (i, j) = (*r.pick(&units), *r.pick(&zeros));
            let old = a[i];
            by(&mut a, i, up);
            a[j] = a[j].wrapping_add(old.wrapping_sub(a[i])) & m;
        }
        (0 | 2, 1.., _) => {
            let i = if r.chance(300) { *units.last().unwrap() } else { *r.pick(&units) };
            by(&mut a, i, up);
        }
        _ => b = b.wrapping_add(up) & m,
    }
    (LWECiphertext::new(a.into_iter().map(|x| x.as_into()).collect(), b.as_into()), bit ^ flip)
}
pub fn build<C: LWEModulusType, Q: Fx>(p: &Pg, seed: u64) -> (SecretKeyPack<C, Q>, SimRng)
where
    u64: AsInto<C>,
{
    let mut rng = SimRng::new(seed);
    let sk = zkfhe::KeyGen::generate_secret_key(p.params::<C, Q>(), &mut rng);
    (sk, rng)
}
