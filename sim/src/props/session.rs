//! P14: sessions of lattice ciphertexts against schoolbook arithmetic on plaintext polynomials.
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::with_field;
use algebra::modulus::{BarrettModulus, PowOf2Modulus};
use algebra::reduce::*;
use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::{ntt_add_mul_assign, ntt_add_mul_assign_fast, ntt_add_mul_inplace, AsFrom, AsInto, Basis, Field, FieldDiscreteGaussianSampler, NTTPolynomial, Polynomial};
use lattice::*;
use num_traits::{Inv, One, Zero};
use std::sync::Arc;

const SIG: [f64; 5] = [1e-9, 0.8, 1.0, 3.2, 0.0];

/// One session's registers.
pub struct Lat<F: Fx> {
    pub n: usize,
    pub q: u64,
    pub s: Vec<u64>,
    pub ns: NTTPolynomial<F>,
    pub basis: Basis<F>,
    pub b: u64,
    pub len: usize,
    pub chi: FieldDiscreteGaussianSampler,
    pub emax: u64,
    p: Vec<Polynomial<F>>,
    np: Vec<(NTTPolynomial<F>, Vec<u64>)>,
    r: Vec<RLWE<F>>,
    nr: Vec<NTTRLWE<F>>,
    g: Vec<(GadgetRLWE<F>, Vec<u64>)>,
    ng: Vec<(NTTGadgetRLWE<F>, Vec<u64>)>,
    w: Vec<(RGSW<F>, Vec<u64>)>,
    nw: Vec<(NTTRGSW<F>, Vec<u64>)>,
}
fn push<T>(v: &mut Vec<T>, x: T, at: usize) {
    if v.len() < 5 {
        v.push(x)
    } else {
        v[at % 5] = x
    }
}
fn worst(d: &[u64], q: u64) -> u64 {
    d.iter().map(|&v| centred(v, q).unsigned_abs()).max().unwrap_or(0)
}
pub fn rl<F: Fx>(c: &RLWE<F>) -> Vec<u64> {
    let mut v = us(c.a_slice());
    v.extend(us(c.b_slice()));
    v
}
pub fn nrl<F: Fx>(c: &NTTRLWE<F>) -> Vec<u64> {
    let mut v = us(c.a_slice());
    v.extend(us(c.b_slice()));
    v
}
pub fn gv<F: Fx>(c: &GadgetRLWE<F>) -> Vec<u64> {
    c.iter().flat_map(rl).collect()
}
pub fn ngv<F: Fx>(c: &NTTGadgetRLWE<F>) -> Vec<u64> {
    c.iter().flat_map(nrl).collect()
}

impl<F: Fx> Lat<F> {
    pub fn new(c: &Case, seed: u64) -> Option<Lat<F>> {
        let _q = rt::quiet();
        let q = F::q();
        let n = 1usize << (c.get("logn").clamp(0, max_log::<F>().min(7) as i64));
        let qb = 64 - q.leading_zeros();
        let bits = (c.get("bits") as u32).clamp(1, qb.min(20));
        let small = q < 100;
        let chi = if small { SIG[0] } else { SIG[c.get("sigma").rem_euclid(5) as usize] };
        let mut r = Rg::new(seed);
        let s: Vec<u64> = (0..n)
            .map(|_| match c.get("key").rem_euclid(4) {
                0 => r.below(2),
                1 => [0, 0, 1, q - 1][r.below(4) as usize],
                2 => r.below(q),
                _ => modq(r.range(-3, 3) as i128, q),
            })
            .collect();
        drop(_q);
        let ns = ctx::must("transform of the key", || poly::<F>(&s).into_ntt_polynomial())?;
        let basis = Basis::<F>::new(bits);
        Some(Lat {
            n,
            q,
            s,
            ns,
            basis,
            b: 1 << bits,
            len: basis.decompose_len(),
            chi: FieldDiscreteGaussianSampler::new(0.0, chi).unwrap(),
            emax: if chi == 3.2 { 21 } else { (6.0 * chi + 0.5).floor() as u64 },
            p: vec![],
            np: vec![],
            r: vec![],
            nr: vec![],
            g: vec![],
            ng: vec![],
            w: vec![],
            nw: vec![],
        })
    }
    fn phase(&self, c: &RLWE<F>) -> Vec<u64> {
        rlwe_phase(c, &self.s)
    }
    fn nphase(&self, c: &NTTRLWE<F>) -> Vec<u64> {
        ntt_rlwe_phase(c, &self.s)
    }
    /// powers of the basis
    fn pow(&self, j: usize) -> u64 {
        powm(self.b % self.q, j as u64, self.q)
    }
    /// largest error of each level of a gadget ciphertext of `m`
    fn errs(&self, phases: &[Vec<u64>], m: &[u64]) -> u64 {
        phases.iter().enumerate().map(|(j, p)| worst(&subv(p, &scalev(m, self.pow(j), self.q), self.q), self.q)).sum()
    }
    fn gp(&self, g: &GadgetRLWE<F>) -> Vec<Vec<u64>> {
        g.iter().map(|c| self.phase(c)).collect()
    }
    fn ngp(&self, g: &NTTGadgetRLWE<F>) -> Vec<Vec<u64>> {
        g.iter().map(|c| self.nphase(c)).collect()
    }
    /// what a gadget product may add
    fn gtol(&self, errs: u64) -> f64 {
        self.n as f64 * (self.b - 1) as f64 * errs as f64
    }
    fn near(&self, what: &str, got: &[u64], want: &[u64], tol: f64) -> bool {
        if !ctx::check(got.iter().all(|&v| v < self.q), "out-of-range", || format!("{what}: coefficient not below {}", self.q)) {
            return false;
        }
        let d = worst(&subv(got, want, self.q), self.q);
        ctx::count("results compared", 1);
        if tol < self.q as f64 / 4.0 {
            ctx::nontrivial();
        }
        ctx::check(d as f64 <= tol, "wrong-value", || format!("{what}: off by {d} of {}, allowed {tol} (N = {}, basis {}, {got:?} for {want:?})", self.q, self.n, self.b))
    }
    fn bigpoly(&self, r: &mut Rg) -> Vec<u64> {
        edge_vec(r, self.n, self.q)
    }
    /// a polynomial with small coefficients
    fn smallpoly(&self, r: &mut Rg) -> Vec<u64> {
        let n = self.n;
        match r.below(4) {
            0 => (0..n).map(|_| modq(r.range(-1, 1) as i128, self.q)).collect(),
            1 => {
                let mut v = vec![0; n];
                v[r.below(n as u64) as usize] = [1, self.q - 1][r.below(2) as usize];
                v
            }
            _ => (0..n).map(|_| r.below(2)).collect(),
        }
    }
    fn checked_rlwe(&mut self, what: &str, c: RLWE<F>, want: &[u64], tol: f64, at: usize) {
        let ph = self.phase(&c);
        ctx::event(what, &[ctx::digest(rl(&c))]);
        if self.near(what, &ph, want, tol) {
            push(&mut self.r, c, at);
        }
    }
    fn checked_ntt_rlwe(&mut self, what: &str, c: NTTRLWE<F>, want: &[u64], tol: f64, at: usize) {
        let ph = self.nphase(&c);
        ctx::event(what, &[ctx::digest(nrl(&c))]);
        if self.near(what, &ph, want, tol) {
            push(&mut self.nr, c, at);
        }
    }
    fn checked_poly(&mut self, what: &str, c: Polynomial<F>, want: &[u64], at: usize) {
        let v = coeffs(&c);
        ctx::check(c.is_zero() == v.iter().all(|&x| x == 0), "wrong-value", || format!("is_zero of {v:?}"));
        ctx::event(what, &[ctx::digest(v.iter().copied())]);
        if self.near(what, &v, want, 0.0) {
            push(&mut self.p, c, at);
        }
    }
    fn checked_npoly(&mut self, what: &str, c: NTTPolynomial<F>, want: Vec<u64>, at: usize) {
        let v = coeffs(&c.clone().into_native_polynomial());
        ctx::check(c.is_zero() == v.iter().all(|&x| x == 0), "wrong-value", || format!("is_zero of the transform of {v:?}"));
        ctx::event(what, &[ctx::digest(us(c.as_slice()))]);
        if self.near(what, &v, &want, 0.0) {
            push(&mut self.np, (c, want), at);
        }
    }
    /// everything the session holds, to see that inputs stay as they were
    fn all(&self) -> u64 {
        let mut v: Vec<u64> = self.s.clone();
        v.extend(us(self.ns.as_slice()));
        self.p.iter().for_each(|x| v.extend(coeffs(x)));
        self.np.iter().for_each(|x| v.extend(us(x.0.as_slice())));
        self.r.iter().for_each(|x| v.extend(rl(x)));
        self.nr.iter().for_each(|x| v.extend(nrl(x)));
        self.g.iter().for_each(|x| v.extend(gv(&x.0)));
        self.ng.iter().for_each(|x| v.extend(ngv(&x.0)));
        self.w.iter().for_each(|x| v.extend(gv(x.0.c_m()).into_iter().chain(gv(x.0.c_neg_s_m()))));
        self.nw.iter().for_each(|x| v.extend(ngv(x.0.c_m()).into_iter().chain(ngv(x.0.c_neg_s_m()))));
        ctx::digest(v)
    }
    fn fill(&mut self, r: &mut Rg) {
        if self.p.is_empty() {
            let v = self.bigpoly(r);
            self.p.push(poly(&v));
        }
        if self.np.is_empty() {
            let v = self.bigpoly(r);
            self.np.push((poly::<F>(&v).into_ntt_polynomial(), v));
        }
        if self.r.is_empty() {
            let (a, b) = (self.bigpoly(r), self.bigpoly(r));
            self.r.push(RLWE::new(poly(&a), poly(&b)));
        }
        if self.nr.is_empty() {
            let (a, b) = (self.bigpoly(r), self.bigpoly(r));
            self.nr.push(RLWE::new(poly(&a), poly(&b)).into());
        }
        let mut rng = SimRng::new(r.u64());
        let one = { let mut v = vec![0; self.n]; v[0] = 1; v };
        if self.g.is_empty() {
            self.g.push((GadgetRLWE::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one.clone()));
        }
        if self.ng.is_empty() {
            self.ng.push((NTTGadgetRLWE::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one.clone()));
        }
        if self.w.is_empty() {
            self.w.push((RGSW::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one.clone()));
        }
        if self.nw.is_empty() {
            self.nw.push((NTTRGSW::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one));
        }
    }
    fn check_gadget(&self, what: &str, ph: &[Vec<u64>], m: &[u64], tol: u64) -> bool {
        if !ctx::check(ph.len() == self.len, "bad-dimension", || format!("{what}: {} levels", ph.len())) {
            return false;
        }
        ph.iter().enumerate().all(|(j, p)| self.near(what, p, &scalev(m, self.pow(j), self.q), tol as f64))
    }
    fn neg_s(&self, m: &[u64]) -> Vec<u64> {
        negv(&negacyclic(m, &self.s, self.q), self.q)
    }

    pub fn step(&mut self, o: &Op) {
        let mut r = Rg::new(mix64(o.arg(1) as u64));
        self.fill(&mut r);
        let (q, n) = (self.q, self.n);
        let (i, j, at) = (o.arg(2).rem_euclid(1 << 16) as usize, o.arg(3).rem_euclid(1 << 16) as usize, o.arg(4).rem_euclid(1 << 16) as usize);
        let how = o.arg(5).rem_euclid(1 << 16) as usize;
        let sub = o.arg(6) & 1 == 1;
        let comb = |x: &[u64], y: &[u64]| if sub { subv(x, y, q) } else { addv(x, y, q) };
        match o.k.as_str() {
            "poly" => {
                let (a, b) = (self.p[i % self.p.len()].clone(), self.p[j % self.p.len()].clone());
                let (x, y) = (coeffs(&a), coeffs(&b));
                let (nb, ny) = self.np[j % self.np.len()].clone();
                let k = r.below(q);
                let (c, want) = match how % 17 {
                    0 => (if sub { &a - &b } else { &a + &b }, comb(&x, &y)),
                    1 => (if sub { a.clone() - &b } else { a.clone() + &b }, comb(&x, &y)),
                    2 => (if sub { &a - b.clone() } else { &a + b.clone() }, comb(&x, &y)),
                    3 => (if sub { a.clone() - b.clone() } else { a.clone() + b.clone() }, comb(&x, &y)),
                    4 => {
                        let mut c = a.clone();
                        if sub { c -= &b } else { c += &b }
                        (c, comb(&x, &y))
                    }
                    5 => {
                        let mut c = poly::<F>(&self.bigpoly(&mut r));
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                        (c, comb(&x, &y))
                    }
                    6 => {
                        let mut c = a.clone();
                        c.neg_assign();
                        (if sub { c } else { -&a }, negv(&x, q))
                    }
                    7 => (if sub { &a * &b } else { a.clone() * b.clone() }, negacyclic(&x, &y, q)),
                    8 => (if sub { &a * &nb } else { a.clone() * nb }, negacyclic(&x, &ny, q)),
                    9 => {
                        let mut c = a.clone();
                        c.mul_scalar_assign(F::f(k));
                        (if sub { c } else { a.mul_scalar(F::f(k)) }, scalev(&x, k, q))
                    }
                    10 => {
                        let z = F::f(k);
                        let e = x.iter().rev().fold(0, |acc, &v| addm(v, mulm(acc, k, q), q));
                        ctx::check(a.evaluate(z).u() == e, "wrong-value", || format!("polynomial {x:?} at {k}"));
                        (a.clone(), x.clone())
                    }
                    11 => {
                        let mut c = a.clone();
                        if sub { c *= &b } else { c *= b.clone() }
                        (c, negacyclic(&x, &y, q))
                    }
                    12 => {
                        let mut c = a.clone();
                        if sub { c *= &nb } else { c *= nb }
                        (c, negacyclic(&x, &ny, q))
                    }
                    13 => {
                        let mut c = a.clone();
                        if sub { c -= b.clone() } else { c += b.clone() }
                        (c, comb(&x, &y))
                    }
                    14 => {
                        let v = if sub { a.clone() * &b } else { &a * b.clone() };
                        (-v, negv(&negacyclic(&x, &y, q), q))
                    }
                    15 => {
                        // an inverse exists when no transformed coefficient is zero
                        let t = a.clone().into_ntt_polynomial();
                        if t.iter().any(|v| v.is_zero()) {
                            return;
                        }
                        let c = &t * &(if sub { (&a).inv() } else { a.clone().inv() });
                        let mut one = vec![0; n];
                        one[0] = 1;
                        (c.into(), one)
                    }
                    _ => {
                        // digits add up to the polynomial
                        let d = a.clone().decompose(self.basis);
                        ctx::check(d.len() == self.len && d.iter().all(|p| p.iter().all(|v| v.u() < self.b)), "out-of-range", || "digits".into());
                        let sum = d.iter().enumerate().fold(vec![0; n], |acc, (j, p)| addv(&acc, &scalev(&coeffs(p), self.pow(j), q), q));
                        (poly(&sum), x.clone())
                    }
                };
                ctx::check(coeffs(&a) == x && coeffs(&b) == y, "input-changed", || "polynomial".into());
                self.checked_poly("poly", c, &want, at);
            }
            "npoly" => {
                let (a, x) = self.np[i % self.np.len()].clone();
                let (b, y) = self.np[j % self.np.len()].clone();
                let (pa, pb) = (self.p[i % self.p.len()].clone(), self.p[j % self.p.len()].clone());
                let (c, want) = match how % 18 {
                    0 => (pa.clone().into_ntt_polynomial(), coeffs(&pa)),
                    1 => (if sub { &a - &b } else { &a + &b }, comb(&x, &y)),
                    2 => (if sub { a.clone() - &b } else { a.clone() + b.clone() }, comb(&x, &y)),
                    3 => {
                        let mut c = b.clone();
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                        (c, comb(&x, &y))
                    }
                    4 => (if sub { -&a } else { -a.clone() }, negv(&x, q)),
                    5 => (if sub { &a * &b } else { a.clone() * &b }, negacyclic(&x, &y, q)),
                    6 => {
                        let mut c = b.clone();
                        a.mul_inplace(&b, &mut c);
                        (c, negacyclic(&x, &y, q))
                    }
                    7 => (if sub { &a * &pb } else { a.clone() * pb.clone() }, negacyclic(&x, &coeffs(&pb), q)),
                    8 => {
                        let k = r.below(q);
                        (a.mul_scalar(F::f(k)), scalev(&x, k, q))
                    }
                    9 => {
                        let k = r.below(q);
                        let mut c = a.clone();
                        c.mul_scalar_assign(F::f(k));
                        c.neg_assign();
                        (c, negv(&scalev(&x, k, q), q))
                    }
                    10 => {
                        let mut c = a.clone();
                        match (r.below(3), sub) {
                            (0, true) => c -= b.clone(),
                            (0, _) => c += b.clone(),
                            (1, true) => c -= &b,
                            (1, _) => c += &b,
                            (_, true) => c = &a - b.clone(),
                            _ => c = &a + b.clone(),
                        }
                        (c, comb(&x, &y))
                    }
                    11 => {
                        let mut c = a.clone();
                        if sub { c *= &b } else { c *= b.clone() }
                        (c, negacyclic(&x, &y, q))
                    }
                    12 => {
                        let mut c = a.clone();
                        if sub { c *= &pb } else { c *= pb.clone() }
                        (c, negacyclic(&x, &coeffs(&pb), q))
                    }
                    13 => {
                        // x + y z
                        let (z, w) = self.np[at % self.np.len()].clone();
                        let mut c = a.clone();
                        match (r.below(3), sub) {
                            (0, _) => ntt_add_mul_assign(&mut c, &b, &z),
                            (1, _) => {
                                c = b.clone();
                                ntt_add_mul_inplace(&a, &b, &z, &mut c)
                            }
                            _ => {
                                ntt_add_mul_assign_fast(&mut c, &b, &z);
                                c = c.into_native_polynomial().into();
                            }
                        }
                        (c, addv(&x, &negacyclic(&y, &w, q), q))
                    }
                    14 | 15 => {
                        // transformed monomials
                        let t = F::get_ntt_table(n.trailing_zeros()).unwrap();
                        let d = [r.below(2 * n as u64) as usize, 0, n - 1, n, 2 * n - 1][r.below(5) as usize];
                        let k = match r.below(4) { 0 => 0, 1 => 1, 2 => q - 1, _ => r.below(q) };
                        let mut c = a.clone();
                        let k = match how % 5 {
                            0 => {
                                t.transform_coeff_one_monomial(d, c.as_mut_slice());
                                1
                            }
                            1 => {
                                t.transform_coeff_neg_one_monomial(d, c.as_mut_slice());
                                q - 1
                            }
                            _ => {
                                t.transform_monomial(F::f(k), d, c.as_mut_slice());
                                k
                            }
                        };
                        let mut m = vec![0; n];
                        m[d % n] = if d >= n { negm(k, q) } else { k };
                        if sub { (c, m) } else { (&a * &c, negacyclic(&x, &m, q)) }
                    }
                    16 => {
                        // through the table itself
                        let t = F::get_ntt_table(n.trailing_zeros()).unwrap();
                        let c = if sub { t.transform(&pa) } else { t.transform_inplace(pa.clone()) };
                        let back = if sub { t.inverse_transform(&c) } else { t.inverse_transform_inplace(c.clone()) };
                        ctx::check(coeffs(&back) == coeffs(&pa), "wrong-value", || format!("transform and back: {:?} became {:?}", coeffs(&pa), coeffs(&back)));
                        (c, coeffs(&pa))
                    }
                    _ => {
                        if a.iter().any(|v| v.is_zero()) {
                            return;
                        }
                        // inverse times itself is one
                        let c = &a * &(if sub { (&a).inv() } else { a.clone().inv() });
                        let mut one = vec![0; n];
                        one[0] = 1;
                        (c, one)
                    }
                };
                self.checked_npoly("npoly", c, want, at);
            }
            "elem" => {
                let (x, y, z) = (edge_val(&mut r, q), edge_val(&mut r, q), edge_val(&mut r, q));
                let (a, b, c) = (F::f(x), F::f(y), F::f(z));
                let ok = |got: F, want: u64, what: &str| ctx::check(got.u() == want, "wrong-value", || format!("{what} of {x}, {y}, {z} modulo {q}: {}", got.u()));
                let asg = |f: &dyn Fn(&mut F)| {
                    let mut v = a;
                    f(&mut v);
                    v
                };
                ok(a.add_mul(b, c), addm(x, mulm(y, z, q), q), "a + b c");
                ok(asg(&|v| v.add_mul_assign(b, c)), addm(x, mulm(y, z, q), q), "a += b c");
                // the fast ones may stay below twice the modulus
                let fast = |got: F, want: u64, what: &str| ctx::check(got.u() % q == want && got.u() / q < 2, "wrong-value", || format!("{what} of {x}, {y}, {z} modulo {q}: {}", got.u()));
                fast(a.add_mul_fast(b, c), addm(x, mulm(y, z, q), q), "fast a + b c");
                fast(asg(&|v| v.add_mul_assign_fast(b, c)), addm(x, mulm(y, z, q), q), "fast a += b c");
                fast(a.mul_fast(b), mulm(x, y, q), "fast a b");
                fast(asg(&|v| v.mul_assign_fast(b)), mulm(x, y, q), "fast a *= b");
                let root = b.to_root();
                ok(F::from_root(root), y, "root and back");
                ok(a.mul_root(root), mulm(x, y, q), "a times root b");
                ok(asg(&|v| v.mul_root_assign(root)), mulm(x, y, q), "a times root b in place");
                ok(a + b, addm(x, y, q), "a + b");
                ok(a - b, subm(x, y, q), "a - b");
                ok(a * b, mulm(x, y, q), "a b");
                ok(-a, negm(x, q), "-a");
                if y != 0 {
                    ok(b.inv() * b, 1, "inverse");
                    ok(a / b * b, x, "quotient");
                }
                ctx::nontrivial();
                ctx::event("elem", &[x, y, z, a.add_mul(b, c).u()]);
            }
            "back" => {
                let (a, x) = self.np[i % self.np.len()].clone();
                let c = if sub { a.clone().into_native_polynomial() } else { Polynomial::from(a.clone()) };
                self.checked_poly("back", c, &x, at);
            }
            "fresh" => {
                let mut rng = SimRng::new(r.u64());
                let m = self.bigpoly(&mut r);
                match how % 3 {
                    0 => {
                        let mut c = RLWE::<F>::generate_random_zero_sample(&self.ns, self.chi, &mut rng);
                        *c.b_mut() += poly::<F>(&m);
                        self.checked_rlwe("fresh", c, &m, self.emax as f64, at);
                    }
                    1 => {
                        let mut c = NTTRLWE::<F>::generate_random_zero_sample(&self.ns, self.chi, &mut rng);
                        *c.b_mut() += poly::<F>(&m).into_ntt_polynomial();
                        self.checked_ntt_rlwe("fresh", c, &m, self.emax as f64, at);
                    }
                    _ => {
                        let c = NTTRLWE::<F>::generate_random_value_sample(&self.ns, F::f(m[0]), self.chi, &mut rng);
                        let mut w = vec![0; n];
                        w[0] = m[0];
                        self.checked_ntt_rlwe("fresh", c, &w, self.emax as f64, at);
                    }
                }
            }
            "rlwe" => {
                let (a, b) = (self.r[i % self.r.len()].clone(), self.r[j % self.r.len()].clone());
                let (x, y) = (self.phase(&a), self.phase(&b));
                let before = (rl(&a), rl(&b));
                let k = match r.below(4) { 0 => 0, 1 => n, 2 => 2 * n, _ => r.below(2 * n as u64 + 1) as usize };
                let (c, want) = match how % 7 {
                    0 => (if sub { a.sub_element_wise_ref(&b) } else { a.add_element_wise_ref(&b) }, comb(&x, &y)),
                    1 => (if sub { a.clone().sub_element_wise(&b) } else { a.clone().add_element_wise(&b) }, comb(&x, &y)),
                    2 => {
                        let mut c = a.clone();
                        if sub { c.sub_assign_element_wise(&b) } else { c.add_assign_element_wise(&b) }
                        (c, comb(&x, &y))
                    }
                    3 => {
                        let mut c = b.clone();
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                        (c, comb(&x, &y))
                    }
                    4 => {
                        let mut c = b.clone();
                        a.mul_monic_monomial_sub_one_inplace(n, k, &mut c);
                        (c, subv(&rot(&x, k, q), &x, q))
                    }
                    5 => {
                        let mut c = a.clone();
                        c.add_assign_rhs_mul_monic_monomial(&b, n, k);
                        (c, addv(&x, &rot(&y, k, q), q))
                    }
                    _ => {
                        let mut d = self.nr[j % self.nr.len()].clone();
                        let (np, pc) = self.np[j % self.np.len()].clone();
                        a.mul_ntt_polynomial_inplace(&np, &mut d);
                        (RLWE::from(d), negacyclic(&x, &pc, q))
                    }
                };
                ctx::check((rl(&a), rl(&b)) == before, "input-changed", || "RLWE".into());
                self.checked_rlwe("rlwe", c, &want, 0.0, at);
            }
            "conv" => {
                let a = self.r[i % self.r.len()].clone();
                let b = self.nr[j % self.nr.len()].clone();
                let (x, y) = (self.phase(&a), self.nphase(&b));
                self.checked_ntt_rlwe("conv", NTTRLWE::from(a.clone()), &x, 0.0, at);
                let c = if sub { RLWE::from(b.clone()) } else { let mut d = a; b.inverse_transform_inplace(&mut d); d };
                self.checked_rlwe("conv", c, &y, 0.0, at);
            }
            "nrlwe" => {
                let (a, b) = (self.nr[i % self.nr.len()].clone(), self.nr[j % self.nr.len()].clone());
                let (x, y) = (self.nphase(&a), self.nphase(&b));
                let (np, pc) = self.np[at % self.np.len()].clone();
                let before = (nrl(&a), nrl(&b), us(np.as_slice()));
                let (c, want) = match how % 9 {
                    0 => (if sub { a.sub_element_wise_ref(&b) } else { a.add_element_wise_ref(&b) }, comb(&x, &y)),
                    1 => (if sub { a.clone().sub_element_wise(&b) } else { a.clone().add_element_wise(&b) }, comb(&x, &y)),
                    2 => {
                        let mut c = a.clone();
                        if sub { c.sub_element_wise_assign(&b) } else { c.add_element_wise_assign(&b) }
                        (c, comb(&x, &y))
                    }
                    3 => {
                        let mut c = b.clone();
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                        (c, comb(&x, &y))
                    }
                    4 => {
                        let mut c = a.clone();
                        c.mul_ntt_polynomial_assign(&np);
                        (c, negacyclic(&x, &pc, q))
                    }
                    5 => {
                        let mut c = b.clone();
                        a.mul_ntt_polynomial_inplace(&np, &mut c);
                        (c, negacyclic(&x, &pc, q))
                    }
                    6 => {
                        let mut c = a.clone();
                        c.add_ntt_rlwe_mul_ntt_polynomial_assign(&b, &np);
                        (c, addv(&x, &negacyclic(&y, &pc, q), q))
                    }
                    7 => {
                        let mut c = b.clone();
                        a.add_ntt_rlwe_mul_ntt_polynomial_inplace(&b, &np, &mut c);
                        (c, addv(&x, &negacyclic(&y, &pc, q), q))
                    }
                    _ => {
                        // coefficients may be left in [0, 2q); conversion settles them
                        let mut c = a.clone();
                        c.add_ntt_rlwe_mul_ntt_polynomial_assign_fast(&b, &np);
                        let back = RLWE::from(c);
                        (NTTRLWE::from(back), addv(&x, &negacyclic(&y, &pc, q), q))
                    }
                };
                ctx::check((nrl(&a), nrl(&b), us(np.as_slice())) == before, "input-changed", || "NTT RLWE".into());
                self.checked_ntt_rlwe("nrlwe", c, &want, 0.0, at);
            }
            "gnew" => {
                let mut rng = SimRng::new(r.u64());
                let mut one = vec![0; n];
                one[0] = 1;
                let (g, m) = match how % 4 {
                    0 => (GadgetRLWE::generate_random_zero_sample(&self.ns, self.basis, self.chi, &mut rng), vec![0; n]),
                    1 => (GadgetRLWE::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one.clone()),
                    2 => (GadgetRLWE::generate_random_neg_secret_sample(&self.ns, self.basis, self.chi, &mut rng), negv(&self.s, q)),
                    _ => {
                        let m = self.smallpoly(&mut r);
                        let mut d = vec![];
                        for j in 0..self.len {
                            let mut c = RLWE::<F>::generate_random_zero_sample(&self.ns, self.chi, &mut rng);
                            *c.b_mut() += poly::<F>(&scalev(&m, self.pow(j), q));
                            d.push(c);
                        }
                        (GadgetRLWE::new(d, self.basis), m)
                    }
                };
                if self.check_gadget("gadget sample", &self.gp(&g), &m, self.emax) {
                    push(&mut self.g, (g.clone(), m.clone()), at);
                }
                let (h, m) = match how / 4 % 4 {
                    0 => (NTTGadgetRLWE::generate_random_zero_sample(&self.ns, self.basis, self.chi, &mut rng), vec![0; n]),
                    1 => (NTTGadgetRLWE::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one),
                    2 => (NTTGadgetRLWE::generate_random_neg_secret_sample(&self.ns, self.basis, self.chi, &mut rng), negv(&self.s, q)),
                    _ => (NTTGadgetRLWE::from(g), m),
                };
                if self.check_gadget("transformed gadget sample", &self.ngp(&h), &m, self.emax) {
                    push(&mut self.ng, (h, m), at);
                }
                ctx::event("gnew", &[how as u64]);
            }
            "gadd" => {
                let (a, x) = self.g[i % self.g.len()].clone();
                let (b, y) = self.g[j % self.g.len()].clone();
                let mut c = self.g[at % self.g.len()].0.clone();
                if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                let m = comb(&x, &y);
                let t = self.errs(&self.gp(&a), &x) + self.errs(&self.gp(&b), &y);
                if self.check_gadget("gadget sum", &self.gp(&c), &m, t) {
                    push(&mut self.g, (c, m), at);
                }
                let (a, x) = self.ng[i % self.ng.len()].clone();
                let (b, y) = self.ng[j % self.ng.len()].clone();
                let mut c = self.ng[at % self.ng.len()].0.clone();
                let (np, pc) = self.np[j % self.np.len()].clone();
                let t = self.errs(&self.ngp(&a), &x);
                let (m, t) = match how % 2 {
                    0 => {
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                        (comb(&x, &y), t + self.errs(&self.ngp(&b), &y))
                    }
                    _ => {
                        a.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&b, &np, &mut c);
                        let e = self.errs(&self.ngp(&b), &y) as f64 * n as f64 * worst(&pc, q) as f64;
                        (addv(&x, &negacyclic(&y, &pc, q), q), t.saturating_add(if e < 1e18 { e as u64 } else { q }))
                    }
                };
                if self.check_gadget("transformed gadget sum", &self.ngp(&c), &m, t.min(q)) && t < q / 4096 {
                    push(&mut self.ng, (c, m), at);
                }
                ctx::event("gadd", &[how as u64]);
            }
            "gmul" => {
                let pa = self.p[i % self.p.len()].clone();
                let x = coeffs(&pa);
                let acc = self.r[j % self.r.len()].clone();
                let nacc = self.nr[j % self.nr.len()].clone();
                let mut ds = DecompositionSpace::new(n);
                let mut ps = PolynomialSpace::new(n);
                if how % 12 < 3 {
                    let (g, m) = self.g[at % self.g.len()].clone();
                    let t = self.gtol(self.errs(&self.gp(&g), &m));
                    let prod = negacyclic(&x, &m, q);
                    let y = self.phase(&acc);
                    let (c, want) = match how % 12 {
                        0 => (g.mul_polynomial(&pa), prod),
                        1 => (g.mul_polynomial_add_rlwe(&pa, acc), addv(&y, &prod, q)),
                        _ => (acc.add_gadget_rlwe_mul_polynomial(&g, &pa), addv(&y, &prod, q)),
                    };
                    self.checked_rlwe("gmul", c, &want, t, at);
                } else {
                    let (g, m) = self.ng[at % self.ng.len()].clone();
                    let t = self.gtol(self.errs(&self.ngp(&g), &m));
                    let prod = negacyclic(&x, &m, q);
                    let y = self.nphase(&nacc);
                    let settle = |c: NTTRLWE<F>| NTTRLWE::from(RLWE::from(c));
                    let mut c = nacc.clone();
                    let (c, want) = match how % 12 {
                        3 | 10 => (g.mul_polynomial(&pa), prod),
                        4 => {
                            g.mul_polynomial_inplace(&pa, &mut ds, &mut ps, &mut c);
                            (c, prod)
                        }
                        5 => {
                            g.mul_polynomial_inplace_fast(&pa, &mut ds, &mut ps, &mut c);
                            (settle(c), prod)
                        }
                        6 => (nacc.add_gadget_rlwe_mul_polynomial(&g, &pa), addv(&y, &prod, q)),
                        7 => {
                            c.add_assign_gadget_rlwe_mul_polynomial(&g, &pa, &mut ds, &mut ps);
                            (c, addv(&y, &prod, q))
                        }
                        8 => {
                            c.add_assign_gadget_rlwe_mul_polynomial_fast(&g, &pa, &mut ds, &mut ps);
                            (settle(c), addv(&y, &prod, q))
                        }
                        9 => {
                            c.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&g, &mut pa.clone(), &mut ds);
                            (settle(c), addv(&y, &prod, q))
                        }
                        11 => {
                            c.sub_assign_gadget_rlwe_mul_polynomial_inplace(&g, pa.clone(), &mut ds);
                            (c, subv(&y, &prod, q))
                        }
                        _ => {
                            c.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&g, &mut pa.clone(), &mut ds);
                            (settle(c), subv(&y, &prod, q))
                        }
                    };
                    self.checked_ntt_rlwe("gmul", c, &want, t, at);
                }
                ctx::check(coeffs(&pa) == x, "input-changed", || "gadget factor".into());
            }
            "wnew" => {
                let mut rng = SimRng::new(r.u64());
                let mut one = vec![0; n];
                one[0] = 1;
                let (w, m) = if sub {
                    (RGSW::generate_random_zero_sample(&self.ns, self.basis, self.chi, &mut rng), vec![0; n])
                } else {
                    (RGSW::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one.clone())
                };
                if self.check_gadget("RGSW sample", &self.gp(w.c_m()), &m, self.emax) && self.check_gadget("RGSW sample (-s)", &self.gp(w.c_neg_s_m()), &self.neg_s(&m), self.emax) {
                    push(&mut self.w, (w.clone(), m.clone()), at);
                }
                let (w, m, t) = match how % 4 {
                    0 => (NTTRGSW::generate_random_zero_sample(&self.ns, self.basis, self.chi, &mut rng), vec![0; n], self.emax),
                    1 => (NTTRGSW::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng), one, self.emax),
                    2 => (NTTRGSW::from(w), m, self.emax),
                    _ => {
                        let f = self.smallpoly(&mut r);
                        let mut w = NTTRGSW::generate_random_one_sample(&self.ns, self.basis, self.chi, &mut rng);
                        w.mul_ntt_polynomial_assign(&poly::<F>(&f).into_ntt_polynomial());
                        (w, f, self.emax * n as u64)
                    }
                };
                if self.check_gadget("transformed RGSW sample", &self.ngp(w.c_m()), &m, t) && self.check_gadget("transformed RGSW sample (-s)", &self.ngp(w.c_neg_s_m()), &self.neg_s(&m), t) {
                    push(&mut self.nw, (w, m), at);
                }
                ctx::event("wnew", &[how as u64]);
            }
            "wadd" => {
                if how % 2 == 0 {
                    let (a, x) = self.w[i % self.w.len()].clone();
                    let (b, y) = self.w[j % self.w.len()].clone();
                    let mut c = self.w[at % self.w.len()].0.clone();
                    if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                    let m = comb(&x, &y);
                    let t = self.werrs(&a, &x) + self.werrs(&b, &y);
                    if self.check_gadget("RGSW sum", &self.gp(c.c_m()), &m, t) && self.check_gadget("RGSW sum (-s)", &self.gp(c.c_neg_s_m()), &self.neg_s(&m), t) {
                        push(&mut self.w, (c, m), at);
                    }
                } else {
                    let (a, x) = self.nw[i % self.nw.len()].clone();
                    let (b, y) = self.nw[j % self.nw.len()].clone();
                    let mut c = self.nw[at % self.nw.len()].0.clone();
                    let (mut m, mut t) = (comb(&x, &y), self.nwerrs(&a, &x) + self.nwerrs(&b, &y));
                    if how % 4 == 1 {
                        if sub { a.sub_inplace(&b, &mut c) } else { a.add_inplace(&b, &mut c) }
                    } else {
                        let f = self.smallpoly(&mut r);
                        a.add_ntt_rgsw_mul_ntt_polynomial_inplace(&b, &poly::<F>(&f).into_ntt_polynomial(), &mut c);
                        m = addv(&x, &negacyclic(&y, &f, q), q);
                        t *= n as u64;
                    }
                    if self.check_gadget("transformed RGSW sum", &self.ngp(c.c_m()), &m, t) && self.check_gadget("transformed RGSW sum (-s)", &self.ngp(c.c_neg_s_m()), &self.neg_s(&m), t) && t < q / 4096 {
                        push(&mut self.nw, (c, m), at);
                    }
                }
                ctx::event("wadd", &[how as u64]);
            }
            "ext" => {
                let a = self.r[i % self.r.len()].clone();
                let x = self.phase(&a);
                let before = rl(&a);
                let mut ds = DecompositionSpace::new(n);
                let mut ps = PolynomialSpace::new(n);
                let mut med = NTTRLWESpace::new(n);
                let (c, m, e) = if how % 4 == 0 {
                    let (w, m) = self.w[j % self.w.len()].clone();
                    let e = self.werrs(&w, &m);
                    (a.mul_rgsw(&w), m, e)
                } else {
                    let (w, m) = self.nw[j % self.nw.len()].clone();
                    let e = self.nwerrs(&w, &m);
                    let c = match how % 4 {
                        1 => a.mul_ntt_rgsw(&w),
                        2 => {
                            let mut c = a.clone();
                            c.mul_assign_ntt_rgsw(&w, &mut ds, &mut ps, &mut med);
                            c
                        }
                        _ => {
                            let mut c = self.r[at % self.r.len()].clone();
                            a.mul_ntt_rgsw_inplace(&w, &mut ds, &mut ps, &mut med, &mut c);
                            c
                        }
                    };
                    (c, m, e)
                };
                ctx::check(rl(&a) == before, "input-changed", || "external product".into());
                let t = self.gtol(e);
                self.checked_rlwe("ext", c, &negacyclic(&x, &m, q), t, at);
            }
            "wmul" => {
                let (a, x) = self.w[i % self.w.len()].clone();
                let (c, y, e) = if sub {
                    let (b, y) = self.w[j % self.w.len()].clone();
                    let e = self.werrs(&b, &y);
                    (a.mul_small_rgsw(&b), y, e)
                } else {
                    let (b, y) = self.nw[j % self.nw.len()].clone();
                    let e = self.nwerrs(&b, &y);
                    (a.mul_small_ntt_rgsw(&b), y, e)
                };
                let t = self.gtol(e) + self.werrs(&a, &x) as f64 * n as f64 * worst(&y, q) as f64;
                let m = negacyclic(&x, &y, q);
                let t = if t > q as f64 { q } else { t as u64 };
                if self.check_gadget("RGSW product", &self.gp(c.c_m()), &m, t) && self.check_gadget("RGSW product (-s)", &self.gp(c.c_neg_s_m()), &self.neg_s(&m), t) && t < q / 4096 {
                    push(&mut self.w, (c, m), at);
                }
                ctx::event("wmul", &[sub as u64]);
            }
            "extract" => {
                let a = self.r[i % self.r.len()].clone();
                let dim = 1 + at % n;
                let ph = self.phase(&a);
                // the key as extraction in reverse order sees it
                let mut rev = vec![self.s[0]];
                rev.extend((1..n).map(|k| negm(self.s[n - k], q)));
                let masked: Vec<u64> = self.s.iter().enumerate().map(|(k, &v)| if k < dim { v } else { 0 }).collect();
                let mut mrev = rev.clone();
                mrev.iter_mut().skip(dim).for_each(|v| *v = 0);
                let part = rlwe_phase(&a, &masked)[0];
                let rpart = lwe_phase(&us(a.a_slice()), us(a.b_slice())[0], &mrev, q);
                let (l, key, want) = match how % 5 {
                    0 => (a.extract_lwe(), &self.s[..], ph[0]),
                    1 => (a.clone().extract_lwe_locally(), &self.s[..], ph[0]),
                    2 => (a.clone().extract_lwe_reverse_locally(), &rev[..], ph[0]),
                    3 => (a.clone().extract_partial_lwe_locally(dim), &self.s[..dim], part),
                    _ => (a.clone().extract_partial_lwe_reverse_locally(dim), &rev[..dim], rpart),
                };
                let (la, lb) = lwe_parts(&l);
                ctx::event("extract", &[ctx::digest(la.iter().copied()), lb]);
                if ctx::check(la.len() == key.len(), "bad-dimension", || format!("extracted {} values", la.len())) {
                    let got = lwe_phase(&la, lb, key, q);
                    ctx::check(got == want, "wrong-value", || format!("extraction {} of dimension {dim}: phase {got}, expected {want}", how % 5));
                }
                // and arithmetic on the extracted ciphertexts
                let b = self.r[j % self.r.len()].extract_lwe();
                let a = a.extract_lwe();
                let c = match how % 3 {
                    0 => if sub { a.sub_component_wise_ref(&b) } else { a.add_component_wise_ref(&b) },
                    1 => if sub { a.clone().sub_component_wise(&b) } else { a.clone().add_component_wise(&b) },
                    _ => {
                        let mut c = a.clone();
                        if sub { c.sub_inplace_component_wise(&b) } else { c.add_inplace_component_wise(&b) }
                        c
                    }
                };
                let p = |l: &LWE<F>| { let (x, y) = lwe_parts(l); lwe_phase(&x, y, &self.s, q) };
                let want = if sub { subm(p(&a), p(&b), q) } else { addm(p(&a), p(&b), q) };
                ctx::check(p(&c) == want, "wrong-value", || format!("LWE sum {}, expected {want}", p(&c)));
            }
            _ => {}
        }
    }
    fn werrs(&self, w: &RGSW<F>, m: &[u64]) -> u64 {
        self.errs(&self.gp(w.c_m()), m) + self.errs(&self.gp(w.c_neg_s_m()), &self.neg_s(m))
    }
    fn nwerrs(&self, w: &NTTRGSW<F>, m: &[u64]) -> u64 {
        self.errs(&self.ngp(w.c_m()), m) + self.errs(&self.ngp(w.c_neg_s_m()), &self.neg_s(m))
    }
}

/// A session of LWE ciphertexts over machine words.
fn words<T, M>(o: &Op, q: T, md: M)
where
    M: Copy,
    T: Copy + rand::distributions::uniform::SampleUniform + num_traits::ConstZero + AsFrom<f64> + AsInto<u64> + std::ops::Sub<Output = T>
        + MulReduce<M, Output = T> + AddReduce<M, Output = T> + SubReduce<M, Output = T> + NegReduce<M, Output = T> + DotProductReduce<M, Output = T>
        + AddReduceAssign<M> + SubReduceAssign<M> + MulReduceAssign<M> + NegReduceAssign<M>,
    u64: AsInto<T>,
{
    let qv: u64 = q.as_into();
    let mut r = Rg::new(mix64(o.arg(1) as u64));
    let n = 1 + match r.below(3) { 0 => r.below(8), 1 => 14 + r.below(4), _ => r.below(80) } as usize;
    let s: Vec<u64> = (0..n).map(|_| match o.arg(6) & 3 { 0 => r.below(2), 1 => [0, 1, qv - 1][r.below(3) as usize], _ => r.below(qv) }).collect();
    let st: Vec<T> = s.iter().map(|&v| v.as_into()).collect();
    let sd = if qv < 100 { 1e-9 } else { SIG[(o.arg(6) >> 2).rem_euclid(5) as usize] };
    let bound = (6.0 * sd + 0.5).floor() as u64;
    let chi = DiscreteGaussian::new(q, 0.0, sd).unwrap();
    let mut rng = SimRng::new(r.u64());
    let ph = |c: &LWE<T>| {
        let a: Vec<u64> = c.a().iter().map(|&v| v.as_into()).collect();
        if a.len() != n || a.iter().any(|&v| v >= qv) || c.b().as_into() >= qv {
            ctx::fail("out-of-range", format!("LWE ciphertext of {} values modulo {qv}", a.len()));
            return 0;
        }
        lwe_phase(&a, c.b().as_into(), &s, qv)
    };
    let mut regs: Vec<(LWE<T>, u64)> = vec![];
    for _ in 0..3 {
        let m = edge_val(&mut r, qv);
        let mut c = LWE::generate_random_zero_sample(&st, q, md, chi, &mut rng);
        c.b_mut().add_reduce_assign(m.as_into(), md);
        let p = ph(&c);
        let e = centred(subm(p, m, qv), qv).unsigned_abs();
        ctx::check(e <= bound, "wrong-value", || format!("LWE sample of dimension {n} modulo {qv}: message {m} has phase {p}, allowed error {bound}"));
        ctx::event("lwe sample", &[p]);
        ctx::count("LWE samples", 1);
        regs.push((c, p));
    }
    for _ in 0..8 {
        let (a, x) = regs[r.below(3) as usize].clone();
        let (b, y) = regs[r.below(3) as usize].clone();
        let k = edge_val(&mut r, qv);
        let kt: T = k.as_into();
        let mut c = a.clone();
        let how = r.below(9);
        let (c, want) = match how {
            0 => (a.add_reduce_component_wise_ref(&b, md), addm(x, y, qv)),
            1 => (c.add_reduce_component_wise(&b, md), addm(x, y, qv)),
            2 => { c.add_reduce_inplace_component_wise(&b, md); (c, addm(x, y, qv)) }
            3 => (a.sub_reduce_component_wise_ref(&b, md), subm(x, y, qv)),
            4 => (c.sub_reduce_component_wise(&b, md), subm(x, y, qv)),
            5 => { c.sub_reduce_inplace_component_wise(&b, md); (c, subm(x, y, qv)) }
            6 => { c.scalar_mul_reduce_inplace(kt, md); (c, mulm(x, k, qv)) }
            7 => { c.add_assign_rhs_mul_scalar_reduce(&b, kt, md); (c, addm(x, mulm(y, k, qv), qv)) }
            _ => {
                let d = a.neg_reduce(md);
                c.neg_reduce_assign(md);
                ctx::check(ph(&d) == ph(&c), "wrong-value", || "the two negations differ".into());
                (c, negm(x, qv))
            }
        };
        let got = ph(&c);
        ctx::count("results compared", 1);
        ctx::check(got == want, "wrong-value", || format!("LWE operation {how} modulo {qv}, dimension {n}: phase {got}, expected {want}"));
        ctx::check(ph(&a) == x && ph(&b) == y, "input-changed", || "LWE".into());
        let at = r.below(3) as usize;
        regs[at] = (c, got);
    }
    ctx::event("lwe", &[regs[0].1, regs[1].1, regs[2].1]);
    ctx::nontrivial();
}
fn lwe_words(o: &Op) {
    let lb = o.arg(3).rem_euclid(1 << 16) as u32;
    macro_rules! pow2 {
        ($t:ty) => {{
            let q: $t = 1 << (3 + lb % (<$t>::BITS - 3));
            words::<$t, PowOf2Modulus<$t>>(o, q, PowOf2Modulus::<$t>::new(q))
        }};
    }
    macro_rules! barrett {
        ($t:ty, $v:expr) => {{
            let q: $t = $v[lb as usize % $v.len()];
            words::<$t, BarrettModulus<$t>>(o, q, BarrettModulus::<$t>::new(q))
        }};
    }
    match o.arg(2).rem_euclid(8) {
        0 => pow2!(u8),
        1 => pow2!(u16),
        2 => pow2!(u32),
        3 => pow2!(u64),
        4 => barrett!(u16, [12289u16, 15361, 16001, 257]),
        5 => barrett!(u32, [1073692673u32, 132120577, 12289, 998244353]),
        6 => barrett!(u64, [4611686018425815041u64, 1099511480321, 132120577, 257]),
        _ => barrett!(u8, [17u8, 41, 61, 59]),
    }
}

fn run<F: Fx>(c: &Case) {
    let nt = c.get("threads").clamp(1, 40) as usize;
    let c = Arc::new(c.clone());
    team(nt, move |me| {
        let mut l = match Lat::<F>::new(&c, c.get("keyseed") as u64 + me as u64) {
            Some(l) => l,
            None => return,
        };
        ctx::state(&[l.n as u64, l.b, l.q]);
        for o in &c.ops {
            if o.idx(0, nt) != me || ctx::failed() {
                continue;
            }
            if o.k == "words" {
                ctx::must("LWE operations", || lwe_words(o));
            } else if o.k == "long" {
                // a long stretch of operations of the same session
                let mut r = crate::rg::Rg::new(o.arg(1) as u64);
                for _ in 0..o.arg(2).clamp(0, 5000) {
                    if ctx::failed() {
                        break;
                    }
                    let k = if r.chance(100) { "extract" } else { *r.pick(&OPS) };
                    let o = Op { k: k.into(), a: (0..7).map(|j| if j == 1 { r.below(1 << 40) } else { r.below(1 << 16) } as i64).collect() };
                    ctx::must(&format!("operation {} {:?}", o.k, o.a), || l.step(&o));
                    ctx::count("operations in long sessions", 1);
                }
            } else if o.k == "hold" {
                // nothing changes on its own while other threads run
                let h = l.all();
                rt::point();
                ctx::check(l.all() == h, "input-changed", || "held ciphertexts changed".into());
            } else {
                ctx::must(&format!("operation {} {:?}", o.k, o.a), || l.step(o));
            }
        }
    });
}
fn exec(c: &Case) {
    with_field!(c.get("field"), F => run::<F>(c))
}
pub const OPS: [&str; 19] = ["poly", "poly", "npoly", "npoly", "elem", "back", "fresh", "rlwe", "rlwe", "conv", "nrlwe", "gnew", "gadd", "gmul", "gmul", "wnew", "wadd", "ext", "wmul"];
fn gen(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P14");
    let big = tier == "thorough" && i % 20 == 0;
    c.set("field", r.below(12) as i64);
    c.set("logn", if big { r.range(5, 7) } else if r.chance(60) { 0 } else { r.range(1, 5) });
    c.set("bits", match r.below(5) { 0 => 1, 1 => r.range(10, 20), _ => r.range(2, 9) });
    let long = r.chance(6);
    if long {
        c.set("logn", r.range(0, 3));
    }
    c.set("sigma", if r.chance(400) { 0 } else { r.below(5) as i64 });
    c.set("key", r.below(4) as i64);
    c.set("keyseed", r.below(1 << 40) as i64);
    let usual = if r.chance(700) { 1 } else { r.range(2, 3) as u64 };
    let nt = r.crowd(usual);
    c.set("threads", nt);
    c.sched = gen_sched(r, 18, nt > 1);
    if long {
        c.op("long", &[0, r.below(1 << 40) as i64, *r.pick(&[300, 600, 1500])]);
    }
    for _ in 0..4 + r.below(if c.get("logn") > 4 { 12 } else { 28 }) + if nt > 8 { 2 * nt as u64 } else { 0 } {
        let k = match r.below(20) { 0 => "words", 1 => "hold", 2 => "extract", _ => *r.pick(&OPS) };
        let v: Vec<i64> = (0..5).map(|_| r.below(1 << 16) as i64).collect();
        c.op(k, &[r.below(nt as u64) as i64, r.below(1 << 40) as i64, v[0], v[1], v[2], v[3], v[4]]);
    }
    c
}

pub static P14: PropDef = PropDef {
    id: "P14",
    neighbour: true,
    gen,
    exec,
    outer: None,
    runs_quick: 12000,
    runs_thorough: 300000,
    race: 0,
    rule: "a run is nontrivial when at least one result's allowed deviation was below a quarter of the modulus; distinct by history of every ciphertext, and by schedule",
    real: &["lattice (LWE, RLWE, gadget, RGSW, samplers)", "algebra (polynomials, fields, transforms, decomposition, samplers)"],
    stub: STUB_OS,
    assumptions: &["noise of a product is judged against the worst case for the noise its factors actually carry; dimensions up to 128"],
};
