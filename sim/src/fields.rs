//! Fields used by the simulations, and reference arithmetic that shares nothing with the code under test.
use crate::rg::Rg;
use algebra::{derive::*, Field, NTTField, NTTPolynomial, Polynomial};
use lattice::{LWE, NTTRLWE, RLWE};
pub use fhe_core::{DefaultFieldU32, DefaultQks};
use rand::{CryptoRng, RngCore};

macro_rules! field {
    ($m:ident, $n:ident, $t:ident, $q:tt) => {
        mod $m {
            use super::*;
            #[derive(Field, Prime, DecomposableField, FheField, NTT)]
            #[modulus = $q]
            pub struct $n(pub(super) $t);
        }
        pub use $m::$n;
        impl Fx for $n {
            const NAME: &'static str = stringify!($n);
            fn u(self) -> u64 {
                Field::value(self) as u64
            }
            fn prim_roots(deg: u64) -> Result<(u64, u64), algebra::AlgebraError> {
                Ok((Self::try_primitive_root(deg as $t)?.u(), Self::try_minimal_primitive_root(deg as $t)?.u()))
            }
            fn raw(v: u64) -> Self {
                algebra::FheField::lazy_new(v as $t)
            }
            fn f(v: u64) -> Self {
                Field::new((v % $q) as $t)
            }
        }
    };
}

/// Access to a field as plain integers.
pub trait Fx: NTTField + serde::Serialize + for<'d> serde::Deserialize<'d> + 'static {
    const NAME: &'static str;
    fn u(self) -> u64;
    fn f(v: u64) -> Self;
    fn raw(v: u64) -> Self;
    /// a primitive root of unity of the given order, and the least one
    fn prim_roots(deg: u64) -> Result<(u64, u64), algebra::AlgebraError>;
    fn q() -> u64 {
        <Self as Field>::MODULUS_VALUE.into()
    }
}

field!(m17, F17, u8, 17);
field!(m41, F41, u8, 41);
field!(m12289, F12289, u16, 12289);
field!(m15361, F15361, u16, 15361);
field!(m16001, F16001, u16, 16001);
field!(m30a, F30A, u32, 1073692673);
field!(m30b, F30B, u32, 1073479681);
field!(m27, F27, u32, 132120577);
field!(m40, F40, u64, 1099511480321);
field!(m62, F62, u64, 4611686018425815041);

macro_rules! foreign {
    ($n:ty, $t:ty, $q:literal, $name:literal) => {
        impl Fx for $n {
            const NAME: &'static str = $name;
            fn u(self) -> u64 {
                Field::value(self) as u64
            }
            fn f(v: u64) -> Self {
                Field::new((v % $q) as $t)
            }
            fn prim_roots(deg: u64) -> Result<(u64, u64), algebra::AlgebraError> {
                Ok((Self::try_primitive_root(deg as $t)?.u(), Self::try_minimal_primitive_root(deg as $t)?.u()))
            }
            fn raw(v: u64) -> Self {
                algebra::FheField::lazy_new(v as $t)
            }
        }
    };
}
foreign!(DefaultFieldU32, u32, 132120577, "DefaultFieldU32");
foreign!(DefaultQks, u32, 15361, "DefaultQks");


/// largest log_n the field supports
pub fn max_log<F: Fx>() -> u32 {
    (F::q() - 1).trailing_zeros() - 1
}

pub fn mulm(a: u64, b: u64, q: u64) -> u64 {
    (a as u128 * b as u128 % q as u128) as u64
}
pub fn addm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
pub fn subm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + q as u128 - (b % q) as u128) % q as u128) as u64
}
pub fn negm(a: u64, q: u64) -> u64 {
    subm(0, a, q)
}
pub fn powm(mut b: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    b %= q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, b, q)
        }
        b = mulm(b, b, q);
        e >>= 1;
    }
    r
}
pub fn invm(a: u64, q: u64) -> u64 {
    powm(a, q - 2, q)
}
/// representative of v mod q in (-q/2, q/2]
pub fn centred(v: u64, q: u64) -> i64 {
    if v > q / 2 {
        -((q - v) as i64)
    } else {
        v as i64
    }
}
pub fn modq(v: i128, q: u64) -> u64 {
    v.rem_euclid(q as i128) as u64
}
/// schoolbook product modulo X^n + 1
pub fn negacyclic(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    let _q = crate::rt::quiet();
    let n = a.len();
    let mut lo = vec![0u64; n];
    if q < 1 << 31 {
        // accumulate with a shifted operand so that everything stays below 2^64
        for i in 0..n {
            if a[i] == 0 {
                continue;
            }
            for j in 0..n {
                let p = a[i] * b[j] % q;
                if i + j < n {
                    lo[i + j] += p;
                } else {
                    lo[i + j - n] += q - p;
                }
            }
        }
        for v in lo.iter_mut() {
            *v %= q;
        }
        return lo;
    }
    for i in 0..n {
        if a[i] == 0 {
            continue;
        }
        for j in 0..n {
            let p = mulm(a[i], b[j], q);
            let k = i + j;
            if k < n {
                lo[k] = addm(lo[k], p, q)
            } else {
                lo[k - n] = subm(lo[k - n], p, q)
            }
        }
    }
    lo
}
/// a * X^r modulo X^n + 1, any r >= 0
pub fn rot(a: &[u64], r: usize, q: u64) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0; n];
    for (i, &v) in a.iter().enumerate() {
        let k = (i + r) % (2 * n);
        if k < n {
            out[k] = v
        } else {
            out[k - n] = negm(v, q)
        }
    }
    out
}
pub fn addv(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(&x, &y)| addm(x, y, q)).collect()
}
pub fn subv(a: &[u64], b: &[u64], q: u64) -> Vec<u64> {
    a.iter().zip(b).map(|(&x, &y)| subm(x, y, q)).collect()
}
pub fn negv(a: &[u64], q: u64) -> Vec<u64> {
    a.iter().map(|&x| negm(x, q)).collect()
}
pub fn scalev(a: &[u64], s: u64, q: u64) -> Vec<u64> {
    a.iter().map(|&x| mulm(x, s, q)).collect()
}
pub fn us<F: Fx>(v: &[F]) -> Vec<u64> {
    v.iter().map(|x| x.u()).collect()
}
pub fn poly<F: Fx>(v: &[u64]) -> Polynomial<F> {
    Polynomial::new(v.iter().map(|&x| F::f(x)).collect())
}
pub fn npoly<F: Fx>(v: &[u64]) -> NTTPolynomial<F> {
    NTTPolynomial::new(v.iter().map(|&x| F::f(x)).collect())
}
pub fn coeffs<F: Fx>(p: &Polynomial<F>) -> Vec<u64> {
    us(p.as_slice())
}
/// b - a*s of an RLWE ciphertext, by schoolbook
pub fn rlwe_phase<F: Fx>(c: &RLWE<F>, s: &[u64]) -> Vec<u64> {
    let q = F::q();
    subv(&us(c.b_slice()), &negacyclic(&us(c.a_slice()), s, q), q)
}
pub fn ntt_rlwe_phase<F: Fx>(c: &NTTRLWE<F>, s: &[u64]) -> Vec<u64> {
    rlwe_phase(&RLWE::from(c.clone()), s)
}
pub fn lwe_phase(a: &[u64], b: u64, s: &[u64], q: u64) -> u64 {
    let mut acc = 0u128;
    for (x, y) in a.iter().zip(s) {
        acc = (acc + *x as u128 * *y as u128) % q as u128;
    }
    subm(b, acc as u64, q)
}
pub fn lwe_parts<F: Fx>(c: &LWE<F>) -> (Vec<u64>, u64) {
    (us(c.a()), c.b().u())
}
/// values biased towards the edges of the range
pub fn edge_val(r: &mut Rg, q: u64) -> u64 {
    match r.below(10) {
        0 => 0,
        1 => 1,
        2 => q - 1,
        3 => q / 2,
        4 => (q / 2 + 1) % q,
        5 => (1u64 << r.below(63)) % q,
        6 => (q - 1).wrapping_sub(r.below(8)) % q,
        _ => r.below(q),
    }
}
pub fn edge_vec(r: &mut Rg, n: usize, q: u64) -> Vec<u64> {
    match r.below(8) {
        0 => vec![0; n],
        1 => vec![q - 1; n],
        2 => {
            let mut v = vec![0; n];
            let i = r.below(n as u64) as usize;
            v[i] = edge_val(r, q);
            v
        }
        3 => (0..n).map(|_| edge_val(r, q)).collect(),
        4 => (0..n).map(|_| [0, 1, q - 1][r.below(3) as usize]).collect(),
        _ => (0..n).map(|_| r.below(q)).collect(),
    }
}

/// A caller-supplied random source under the simulator's control.
#[derive(Clone, Debug)]
pub struct SimRng {
    r0: u64,
    r: Rg,
    /// 0 uniform; otherwise a share of the words is replaced
    pub shape: u64,
    pub draws: u64,
    /// unwind at this draw
    pub fail_at: u64,
    /// fallible requests answer with an error instead of unwinding
    pub err: bool,
    /// a request failed
    pub hit: bool,
    w: u64,
    left: u32,
}
pub const RNG_FAILURE: &str = "simulated randomness failure";
/// how many kinds of streams there are
pub const SHAPES: u64 = 12;
impl SimRng {
    pub fn new(seed: u64) -> Self {
        Self::shaped(seed, 0)
    }
    pub fn shaped(seed: u64, shape: u64) -> Self {
        SimRng { r0: crate::rg::mix64(seed ^ 0xfeed), r: Rg::new(seed), shape, draws: 0, fail_at: u64::MAX, err: false, hit: false, w: 0, left: 0 }
    }
    pub fn failing(seed: u64, at: u64) -> Self {
        let mut s = Self::new(seed);
        s.fail_at = at;
        s
    }
    fn word(&mut self) -> u64 {
        if self.draws >= self.fail_at {
            self.hit = true;
            panic!("{}", RNG_FAILURE);
        }
        self.draws += 1;
        let u = self.r.u64();
        match self.shape % SHAPES {
            0 => u,
            1 => if self.r.chance(900) { 0 } else { u },
            2 => if self.r.chance(900) { !0 } else { u },
            3 => u & self.r.u64() & self.r.u64(),
            4 => u | self.r.u64() | self.r.u64(),
            5 => if self.r.chance(700) { 0x0000_0001_0000_0001u64.wrapping_mul(u & 7) } else { u },
            6 => if self.r.chance(700) { 0xFFFF_FFFF_0000_0000 } else { u },
            7 => if self.r.chance(700) { u | 0x7FFF_FFF0_7FFF_FFF0 } else { u },
            8 => if self.draws % 3 == 0 { u } else { self.w },
            9 => if self.r.chance(800) { 0x8000_0000_8000_0000 ^ (u & 0xFF) } else { u },
            // long spells of one pattern between ordinary stretches, or one spell and then no more
            k => {
                let (at, len) = ((self.draws - 1) >> (6 + self.r0 % 5), self.draws % 3);
                if at & 1 == 1 || k == 11 && at > 0 {
                    return u;
                }
                match crate::rg::mix64(self.r0 ^ at) % 6 {
                    0 => 0,
                    1 => !0,
                    // far in the tail of a normal distribution, on either side
                    2 => 0x0004_0000_0004_0000,
                    3 => if len == 0 { !0xff } else { 0x0004_0000_0004_0000 },
                    4 => if len == 1 { !0xff } else { 0x0001_0000_0001_0000 },
                    _ => self.r0 << 8,
                }
            }
        }
    }
}
impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        let w = self.word();
        self.w = w;
        (w >> 32) as u32 ^ if self.draws & 1 == 0 { 0 } else { w as u32 ^ (w >> 32) as u32 }
    }
    fn next_u64(&mut self) -> u64 {
        let w = self.word();
        self.w = w;
        w
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for c in d.chunks_mut(8) {
            let w = self.next_u64().to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        self.left = 0;
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        if self.err && self.draws + d.len().div_ceil(8) as u64 > self.fail_at {
            self.hit = true;
            return Err(rand::Error::new(std::io::Error::from_raw_os_error(5)));
        }
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for SimRng {}

/// Dispatch on a field number.
#[macro_export]
macro_rules! with_field {
    ($k:expr, $F:ident => $e:expr) => {
        match ($k).rem_euclid(12) {
            0 => { type $F = $crate::fields::F30A; $e }
            1 => { type $F = $crate::fields::DefaultFieldU32; $e }
            2 => { type $F = $crate::fields::F15361; $e }
            3 => { type $F = $crate::fields::F12289; $e }
            4 => { type $F = $crate::fields::F62; $e }
            5 => { type $F = $crate::fields::F40; $e }
            6 => { type $F = $crate::fields::F30B; $e }
            7 => { type $F = $crate::fields::DefaultQks; $e }
            8 => { type $F = $crate::fields::F27; $e }
            9 => { type $F = $crate::fields::F16001; $e }
            10 => { type $F = $crate::fields::F17; $e }
            _ => { type $F = $crate::fields::F41; $e }
        }
    };
}
