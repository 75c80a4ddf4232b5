//! P08: destinations and scratch spaces with a past, against allocating or by-value counterparts.
use super::session::{gv, ngv, nrl, rl};
use super::{team, PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fields::*;
use crate::fhe::{cu, lwe_c};
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::with_field;
use algebra::modulus::PowOf2Modulus;
use algebra::transformation::{AbstractNTT, MonomialNTT};
use algebra::{ntt_add_mul_assign, ntt_add_mul_assign_fast, ntt_add_mul_inplace, Basis, NTTPolynomial, Polynomial};
use lattice::*;
use std::sync::{Arc, Mutex};

/// Every kind of destination and scratch space, of one size, kept from operation to operation.
pub struct Bufs<F: Fx> {
    logn: u32,
    n: usize,
    bits: u32,
    p: Polynomial<F>,
    np: NTTPolynomial<F>,
    r: RLWE<F>,
    nr: NTTRLWE<F>,
    ds: DecompositionSpace<F>,
    ps: PolynomialSpace<F>,
    nps: NTTPolynomialSpace<F>,
    med: NTTRLWESpace<F>,
    rs: RLWESpace<F>,
    g: GadgetRLWE<F>,
    ng: NTTGadgetRLWE<F>,
    w: RGSW<F>,
    nw: NTTRGSWSpace<F>,
    dec: Vec<Polynomial<F>>,
    digits: Vec<F>,
    lwe: LWE<u32>,
    words: Vec<u32>,
    /// holds what an operation over this set left
    uses: u64,
}
impl<F: Fx> Bufs<F> {
    fn new(logn: u32, bits: u32) -> Self {
        let n = 1usize << logn;
        let b = Basis::<F>::new(bits);
        let g = || GadgetRLWE::new((0..b.decompose_len()).map(|_| RLWE::zero(n)).collect(), b);
        Bufs {
            logn,
            n,
            bits,
            p: Polynomial::zero(n),
            np: NTTPolynomial::zero(n),
            r: RLWE::zero(n),
            nr: NTTRLWE::zero(n),
            ds: DecompositionSpace::new(n),
            ps: PolynomialSpace::new(n),
            nps: NTTPolynomialSpace::new(n),
            med: NTTRLWESpace::new(n),
            rs: RLWESpace::new(n),
            g: g(),
            ng: NTTGadgetRLWE::zero(n, b),
            w: RGSW::new(g(), g()),
            nw: NTTRGSWSpace::new(n, b),
            dec: (0..b.decompose_len()).map(|_| Polynomial::zero(n)).collect(),
            digits: vec![F::f(0); b.decompose_len()],
            lwe: LWE::new(vec![0; n], 0),
            words: vec![0; n],
            uses: 0,
        }
    }
    /// Overwrite everything with something else; also values only the lazy operations leave.
    fn scribble(&mut self, how: i64, r: &mut Rg) {
        let q = F::q();
        let mut v = |_: usize| -> F {
            match how {
                0 => F::raw(r.below(q)),
                1 => F::raw(q - 1),
                2 => F::raw(r.below(2 * q)),
                3 => F::raw(2 * q - 1),
                _ => F::raw(0),
            }
        };
        let n = self.n;
        let mut f = |s: &mut [F]| (0..s.len()).for_each(|i| s[i] = v(i));
        f(self.p.as_mut_slice());
        f(self.np.as_mut_slice());
        f(self.r.a_mut_slice());
        f(self.r.b_mut_slice());
        f(self.nr.a_mut_slice());
        f(self.nr.b_mut_slice());
        f(self.ds.as_mut_slice());
        f(self.ps.as_mut_slice());
        f(self.nps.as_mut_slice());
        f(self.med.a_mut_slice());
        f(self.med.b_mut_slice());
        f(self.rs.a_mut_slice());
        f(self.rs.b_mut_slice());
        for g in self.g.iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for g in self.w.c_m_mut().iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for g in self.w.c_neg_s_m_mut().iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for g in self.ng.iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for g in self.nw.c_m_mut().iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for g in self.nw.c_neg_s_m_mut().iter_mut() {
            f(g.a_mut_slice());
            f(g.b_mut_slice());
        }
        for d in self.dec.iter_mut() {
            f(d.as_mut_slice());
        }
        f(&mut self.digits);
        for i in 0..n {
            let x = r.u64() as u32;
            self.words[i] = x;
            self.lwe.a_mut()[i] = x.rotate_left(7);
        }
        *self.lwe.b_mut() = r.u64() as u32;
    }
}

struct In<F: Fx> {
    n: usize,
    q: u64,
    basis: Basis<F>,
    r: Rg,
}
impl<F: Fx> In<F> {
    fn v(&mut self) -> Vec<u64> {
        edge_vec(&mut self.r, self.n, self.q)
    }
    fn p(&mut self) -> Polynomial<F> {
        let v = self.v();
        poly(&v)
    }
    fn np(&mut self) -> NTTPolynomial<F> {
        let v = self.v();
        npoly(&v)
    }
    fn r(&mut self) -> RLWE<F> {
        RLWE::new(self.p(), self.p())
    }
    fn nr(&mut self) -> NTTRLWE<F> {
        NTTRLWE::new(self.np(), self.np())
    }
    fn g(&mut self) -> GadgetRLWE<F> {
        let d = (0..self.basis.decompose_len()).map(|_| self.r()).collect();
        GadgetRLWE::new(d, self.basis)
    }
    fn ng(&mut self) -> NTTGadgetRLWE<F> {
        let d = (0..self.basis.decompose_len()).map(|_| self.nr()).collect();
        NTTGadgetRLWE::new(d, self.basis)
    }
    fn w(&mut self) -> RGSW<F> {
        RGSW::new(self.g(), self.g())
    }
    fn nw(&mut self) -> NTTRGSW<F> {
        NTTRGSW::new(self.ng(), self.ng())
    }
}
fn wv<F: Fx>(w: &RGSW<F>) -> Vec<u64> {
    gv(w.c_m()).into_iter().chain(gv(w.c_neg_s_m())).collect()
}
fn nwv<F: Fx>(w: &NTTRGSW<F>) -> Vec<u64> {
    ngv(w.c_m()).into_iter().chain(ngv(w.c_neg_s_m())).collect()
}
fn add_rlwe<F: Fx>(x: &NTTRLWE<F>, y: &NTTRLWE<F>) -> NTTRLWE<F> {
    x.add_element_wise_ref(y)
}
fn map_g<F: Fx>(a: &NTTGadgetRLWE<F>, b: &NTTGadgetRLWE<F>, f: impl Fn(&NTTRLWE<F>, &NTTRLWE<F>) -> NTTRLWE<F>) -> Vec<u64> {
    a.iter().zip(b.iter()).flat_map(|(x, y)| nrl(&f(x, y))).collect()
}
fn scaled<F: Fx>(x: &NTTRLWE<F>, np: &NTTPolynomial<F>) -> NTTRLWE<F> {
    NTTRLWE::new(x.a() * np, x.b() * np)
}

/// (what it wrote, what the counterpart gives, inputs afterwards == before, results may be lazy)
struct Out {
    got: Vec<u64>,
    want: Vec<u64>,
    same: bool,
    lazy: bool,
}
fn out(got: Vec<u64>, want: Vec<u64>, same: bool) -> Out {
    Out { got, want, same, lazy: false }
}

fn op<F: Fx>(o: &Op, b: &mut Bufs<F>) -> Option<Out> {
    let mut i = In::<F> { n: b.n, q: F::q(), basis: Basis::new(b.bits), r: Rg::new(mix64(o.arg(2) as u64)) };
    let (n, q, basis) = (i.n, i.q, i.basis);
    let sub = o.arg(5) & 1 == 1;
    let how = (o.arg(5) >> 1).rem_euclid(1 << 16) as usize;
    Some(match o.k.as_str() {
        "poly" => {
            let (x, y) = (i.p(), i.p());
            let (vx, vy) = (coeffs(&x), coeffs(&y));
            let want = if sub { &x - &y } else { &x + &y };
            let got = if how % 2 == 0 {
                if sub { x.sub_inplace(&y, &mut b.p) } else { x.add_inplace(&y, &mut b.p) }
                coeffs(&b.p)
            } else {
                b.ps.copy_from(&x);
                if sub { *b.ps.get_mut() -= &y } else { *b.ps.get_mut() += &y }
                coeffs(b.ps.get())
            };
            out(got, coeffs(&want), coeffs(&x) == vx && coeffs(&y) == vy)
        }
        "npoly" => {
            let (x, y, z) = (i.np(), i.np(), i.np());
            let before = (x.clone(), y.clone(), z.clone());
            let dst = if how & 8 == 0 { &mut b.np } else { b.nps.get_mut() };
            let (want, lazy) = match how % 6 {
                0 => {
                    if sub { x.sub_inplace(&y, dst) } else { x.add_inplace(&y, dst) }
                    (if sub { &x - &y } else { &x + &y }, false)
                }
                1 => {
                    x.mul_inplace(&y, dst);
                    (&x * &y, false)
                }
                2 => {
                    ntt_add_mul_inplace(&x, &y, &z, dst);
                    (&x + &(&y * &z), false)
                }
                3 => {
                    dst.copy_from(&x);
                    ntt_add_mul_assign(dst, &y, &z);
                    (&x + &(&y * &z), false)
                }
                4 => {
                    dst.copy_from(&x);
                    ntt_add_mul_assign_fast(dst, &y, &z);
                    (&x + &(&y * &z), true)
                }
                _ => {
                    dst.copy_from(&x);
                    *dst *= &y;
                    (&x * &y, false)
                }
            };
            let got = us(dst.as_slice());
            Out { got, want: us(want.as_slice()), same: (x, y, z) == before, lazy }
        }
        "transform" => {
            let t = F::get_ntt_table(b.logn).unwrap();
            let x = i.p();
            let v = coeffs(&x);
            match how % 3 {
                0 => {
                    b.ds.copy_from(&x);
                    t.transform_slice(b.ds.as_mut_slice());
                    let want = x.clone().into_ntt_polynomial();
                    out(us(b.ds.as_slice()), us(want.as_slice()), us(t.transform(&x).as_slice()) == us(want.as_slice()) && coeffs(&x) == v)
                }
                1 => {
                    let y = i.np();
                    b.p.copy_from(&y);
                    t.inverse_transform_slice(b.p.as_mut_slice());
                    let want = coeffs(&y.clone().into_native_polynomial());
                    out(coeffs(&b.p), want.clone(), coeffs(&t.inverse_transform(&y)) == want)
                }
                _ => {
                    // monomials go straight into the destination
                    let (d, c) = (i.r.below(2 * n as u64) as usize, edge_val(&mut i.r, q));
                    let d = [d, 0, n - 1, n, 2 * n - 1][i.r.below(5) as usize];
                    let c = match i.r.below(4) { 0 => 1, 1 => q - 1, _ => c };
                    let dst = if sub { b.nps.as_mut_slice() } else { b.np.as_mut_slice() };
                    match how & 12 {
                        0 => t.transform_coeff_one_monomial(d, dst),
                        4 => t.transform_coeff_neg_one_monomial(d, dst),
                        _ => t.transform_monomial(F::f(c), d, dst),
                    }
                    let c = match how & 12 { 0 => 1, 4 => q - 1, _ => c };
                    let mut m = vec![0; n];
                    m[d % n] = if d >= n { negm(c, q) } else { c };
                    let want = poly::<F>(&m).into_ntt_polynomial();
                    out(us(dst), us(want.as_slice()), true)
                }
            }
        }
        "rlwe" => {
            let (x, y) = (i.r(), i.r());
            let before = (x.clone(), y.clone());
            match how % 3 {
                0 => {
                    let dst = if how & 4 == 0 { &mut b.r } else { b.rs.get_mut() };
                    if sub { x.sub_inplace(&y, dst) } else { x.add_inplace(&y, dst) }
                    let want = if sub { x.sub_element_wise_ref(&y) } else { x.add_element_wise_ref(&y) };
                    out(rl(dst), rl(&want), (x, y) == before)
                }
                1 => {
                    let k = [i.r.below(2 * n as u64 + 1) as usize, 0, n, 2 * n, n + 1][i.r.below(5) as usize].min(2 * n);
                    let dst = if how & 4 == 0 { &mut b.r } else { b.rs.get_mut() };
                    x.mul_monic_monomial_sub_one_inplace(n, k, dst);
                    let f = |p: &[u64]| subv(&rot(p, k, q), p, q);
                    let mut want = f(&us(x.a_slice()));
                    want.extend(f(&us(x.b_slice())));
                    out(rl(dst), want, (x, y) == before)
                }
                _ => {
                    let np = i.np();
                    let bn = np.clone();
                    let dst = if how & 4 == 0 { &mut b.nr } else { b.med.get_mut() };
                    x.mul_ntt_polynomial_inplace(&np, dst);
                    let want = scaled(&NTTRLWE::from(x.clone()), &np);
                    out(nrl(dst), nrl(&want), (x, y) == before && np == bn)
                }
            }
        }
        "nrlwe" => {
            let (x, y, np) = (i.nr(), i.nr(), i.np());
            let before = (x.clone(), y.clone(), np.clone());
            if how % 4 == 3 {
                let dst = if how & 4 == 0 { &mut b.r } else { b.rs.get_mut() };
                x.inverse_transform_inplace(dst);
                return Some(out(rl(dst), rl(&RLWE::from(x.clone())), (x, y, np) == before));
            }
            let dst = if how & 4 == 0 { &mut b.nr } else { b.med.get_mut() };
            let want = match how % 4 {
                0 => {
                    if sub { x.sub_inplace(&y, dst) } else { x.add_inplace(&y, dst) }
                    if sub { x.sub_element_wise_ref(&y) } else { x.add_element_wise_ref(&y) }
                }
                1 => {
                    x.mul_ntt_polynomial_inplace(&np, dst);
                    scaled(&x, &np)
                }
                _ => {
                    x.add_ntt_rlwe_mul_ntt_polynomial_inplace(&y, &np, dst);
                    add_rlwe(&x, &scaled(&y, &np))
                }
            };
            out(nrl(dst), nrl(&want), (x, y, np) == before)
        }
        "accumulate" => {
            // add or subtract gadget products onto an accumulator, with used scratch spaces
            let (acc, g, p) = (i.nr(), i.ng(), i.p());
            let (vg, vp) = (ngv(&g), coeffs(&p));
            let prod = g.mul_polynomial(&p);
            let nprod = g.mul_polynomial(&-&p);
            let mut d = acc.clone();
            let (want, lazy) = match how % 7 {
                0 => {
                    g.mul_polynomial_inplace(&p, &mut b.ds, &mut b.ps, &mut b.med);
                    return Some(out(nrl(&b.med), nrl(&prod), ngv(&g) == vg && coeffs(&p) == vp));
                }
                1 => {
                    g.mul_polynomial_inplace_fast(&p, &mut b.ds, &mut b.ps, &mut b.med);
                    return Some(Out { got: nrl(&b.med), want: nrl(&prod), same: ngv(&g) == vg && coeffs(&p) == vp, lazy: true });
                }
                2 => {
                    d.add_assign_gadget_rlwe_mul_polynomial(&g, &p, &mut b.ds, &mut b.ps);
                    (add_rlwe(&acc, &prod), false)
                }
                3 => {
                    d.add_assign_gadget_rlwe_mul_polynomial_fast(&g, &p, &mut b.ds, &mut b.ps);
                    (add_rlwe(&acc, &prod), true)
                }
                4 => {
                    b.ps.copy_from(&p);
                    d.add_assign_gadget_rlwe_mul_polynomial_inplace_fast(&g, &mut b.ps, &mut b.ds);
                    (add_rlwe(&acc, &prod), true)
                }
                5 => {
                    d.sub_assign_gadget_rlwe_mul_polynomial_inplace(&g, p.clone(), &mut b.ds);
                    (add_rlwe(&acc, &nprod), false)
                }
                _ => {
                    b.ps.copy_from(&p);
                    d.sub_assign_gadget_rlwe_mul_polynomial_inplace_fast(&g, &mut b.ps, &mut b.ds);
                    (add_rlwe(&acc, &nprod), true)
                }
            };
            Out { got: nrl(&d), want: nrl(&want), same: ngv(&g) == vg && coeffs(&p) == vp, lazy }
        }
        "external" => {
            let (x, w) = (i.r(), i.nw());
            let (bx, bw) = (x.clone(), nwv(&w));
            let want = x.mul_ntt_rgsw(&w);
            let got = if sub {
                let mut c = x.clone();
                c.mul_assign_ntt_rgsw(&w, &mut b.ds, &mut b.ps, &mut b.med);
                rl(&c)
            } else {
                let dst = if how & 1 == 0 { &mut b.r } else { b.rs.get_mut() };
                x.mul_ntt_rgsw_inplace(&w, &mut b.ds, &mut b.ps, &mut b.med, dst);
                rl(dst)
            };
            out(got, rl(&want), x == bx && nwv(&w) == bw)
        }
        "gadget" => {
            if how % 2 == 0 {
                let (x, y) = (i.g(), i.g());
                let before = (gv(&x), gv(&y));
                if sub { x.sub_inplace(&y, &mut b.g) } else { x.add_inplace(&y, &mut b.g) }
                let want = if sub { subv(&before.0, &before.1, q) } else { addv(&before.0, &before.1, q) };
                out(gv(&b.g), want, (gv(&x), gv(&y)) == before)
            } else {
                let (x, y, np) = (i.ng(), i.ng(), i.np());
                let before = (ngv(&x), ngv(&y), us(np.as_slice()));
                let want = if how & 2 == 0 {
                    if sub { x.sub_inplace(&y, &mut b.ng) } else { x.add_inplace(&y, &mut b.ng) }
                    if sub { subv(&before.0, &before.1, q) } else { addv(&before.0, &before.1, q) }
                } else {
                    x.add_ntt_gadget_rlwe_mul_ntt_polynomial_inplace(&y, &np, &mut b.ng);
                    map_g(&x, &y, |u, v| add_rlwe(u, &scaled(v, &np)))
                };
                out(ngv(&b.ng), want, (ngv(&x), ngv(&y), us(np.as_slice())) == before)
            }
        }
        "rgsw" => {
            if how % 2 == 0 {
                let (x, y) = (i.w(), i.w());
                let before = (wv(&x), wv(&y));
                if sub { x.sub_inplace(&y, &mut b.w) } else { x.add_inplace(&y, &mut b.w) }
                let want = if sub { subv(&before.0, &before.1, q) } else { addv(&before.0, &before.1, q) };
                out(wv(&b.w), want, (wv(&x), wv(&y)) == before)
            } else {
                let (x, y, np) = (i.nw(), i.nw(), i.np());
                let before = (nwv(&x), nwv(&y), us(np.as_slice()));
                let dst = b.nw.get_mut();
                let want = match how & 6 {
                    0 => {
                        if sub { x.sub_inplace(&y, dst) } else { x.add_inplace(&y, dst) }
                        if sub { subv(&before.0, &before.1, q) } else { addv(&before.0, &before.1, q) }
                    }
                    2 => {
                        // by value: copy, then multiply in place
                        let mut z = x.clone();
                        z.mul_ntt_polynomial_assign(&np);
                        *dst.c_m_mut() = z.c_m().clone();
                        *dst.c_neg_s_m_mut() = z.c_neg_s_m().clone();
                        let f = |g: &NTTGadgetRLWE<F>| -> Vec<u64> { g.iter().flat_map(|u| nrl(&scaled(u, &np))).collect() };
                        f(x.c_m()).into_iter().chain(f(x.c_neg_s_m())).collect()
                    }
                    _ => {
                        x.add_ntt_rgsw_mul_ntt_polynomial_inplace(&y, &np, dst);
                        let f = |u: &NTTRLWE<F>, v: &NTTRLWE<F>| add_rlwe(u, &scaled(v, &np));
                        map_g(x.c_m(), y.c_m(), f).into_iter().chain(map_g(x.c_neg_s_m(), y.c_neg_s_m(), f)).collect()
                    }
                };
                out(nwv(dst), want, (nwv(&x), nwv(&y), us(np.as_slice())) == before)
            }
        }
        "digits" => {
            let x = i.p();
            match how % 4 {
                0 => {
                    let v = x[i.r.below(n as u64) as usize];
                    v.decompose_at(basis, &mut b.digits);
                    out(us(&b.digits), us(&v.decompose(basis)), true)
                }
                1 => {
                    b.ps.copy_from(&x);
                    b.ps.decompose_inplace(basis, &mut b.dec);
                    let want = x.clone().decompose(basis).iter().flat_map(coeffs).collect();
                    out(b.dec.iter().flat_map(coeffs).collect(), want, true)
                }
                2 => {
                    b.p.copy_from(&x);
                    let want = x.clone().decompose(basis);
                    let mut same = true;
                    for w in &want {
                        b.p.decompose_lsb_bits_inplace(basis, b.ds.as_mut_slice());
                        same &= us(b.ds.as_slice()) == coeffs(w);
                    }
                    ctx::check(same, "stale", || "digit by digit decomposition differs from decomposing at once".into());
                    out(us(b.ds.as_slice()), coeffs(want.last().unwrap()), true)
                }
                _ => {
                    // machine words
                    let bits = 1 + i.r.below(12) as u32;
                    let m = 1u32 << (bits + i.r.below(31 - bits as u64) as u32);
                    let wb = lattice::Basis::<u32>::new(bits, m);
                    let mut data: Vec<u32> = (0..n).map(|_| edge_val(&mut i.r, m as u64) as u32).collect();
                    let orig = data.clone();
                    let (mut got, mut want) = (vec![], vec![]);
                    for j in 0..wb.decompose_len() {
                        lattice::decompose_lsb_bits_inplace(&mut data, wb, &mut b.words);
                        got.extend(b.words.iter().map(|&v| v as u64));
                        want.extend(orig.iter().map(|&v| ((v as u64) >> (bits as usize * j)) & ((1 << bits) - 1)));
                    }
                    out(got, want, data.iter().all(|&v| v == 0))
                }
            }
        }
        "lwe" => {
            let m = 1u32 << (2 + i.r.below(29) as u32);
            let md = PowOf2Modulus::<u32>::new(m);
            if how % 3 == 0 {
                // rounding a ciphertext into a used destination
                let c = LWE::<F>::new((0..n).map(|_| F::f(edge_val(&mut i.r, q))).collect(), F::f(edge_val(&mut i.r, q)));
                let want = fhe_core::lwe_modulus_switch::<u32, F>(c.clone(), m);
                fhe_core::lwe_modulus_switch_inplace::<u32, F>(c, m, &mut b.lwe);
                let f = |l: &LWE<u32>| { let (mut v, w) = lwe_c(l); v.push(w); v };
                return Some(out(f(&b.lwe), f(&want), true));
            }
            let mut l = || LWE::<u32>::new((0..n).map(|_| edge_val(&mut i.r, m as u64) as u32).collect(), edge_val(&mut i.r, m as u64) as u32);
            let (x, y) = (l(), l());
            let before = (lwe_c(&x), lwe_c(&y));
            b.lwe.clone_from(&x);
            let want = if how % 3 == 1 {
                if sub { b.lwe.sub_reduce_inplace_component_wise(&y, md) } else { b.lwe.add_reduce_inplace_component_wise(&y, md) }
                if sub { x.sub_reduce_component_wise_ref(&y, md) } else { x.add_reduce_component_wise_ref(&y, md) }
            } else {
                b.lwe.neg_reduce_assign(md);
                x.neg_reduce(md)
            };
            let f = |l: &LWE<u32>| { let (mut v, w) = lwe_c(l); v.push(w); v };
            let _ = cu(m);
            out(f(&b.lwe), f(&want), (lwe_c(&x), lwe_c(&y)) == before)
        }
        _ => return None,
    })
}

/// An operation that dies part of the way through.
fn abort<F: Fx>(o: &Op, b: &mut Bufs<F>) {
    let mut i = In::<F> { n: b.n, q: F::q(), basis: Basis::new(b.bits), r: Rg::new(mix64(o.arg(2) as u64 ^ 0xdead)) };
    let n = b.n;
    let wrong = if b.logn > 0 && i.r.chance(500) { n / 2 } else { 2 * n };
    let (x, w, p) = (i.r(), i.nw(), i.p());
    let res = match o.arg(5).rem_euclid(7) {
        0 => ctx::guard(|| x.mul_ntt_rgsw_inplace(&w, &mut b.ds, &mut b.ps, &mut b.med, &mut RLWE::zero(wrong))),
        1 => ctx::guard(|| x.mul_ntt_rgsw_inplace(&w, &mut DecompositionSpace::new(wrong), &mut b.ps, &mut b.med, &mut b.r)),
        2 => ctx::guard(|| x.mul_ntt_rgsw_inplace(&w, &mut b.ds, &mut PolynomialSpace::new(wrong), &mut b.med, &mut b.rs)),
        3 => ctx::guard(|| w.c_m().mul_polynomial_inplace(&p, &mut DecompositionSpace::new(wrong), &mut b.ps, &mut b.med)),
        4 => {
            let mut d = vec![Polynomial::<F>::zero(n); b.dec.len() + 1];
            ctx::guard(|| b.ps.decompose_inplace(Basis::<F>::new(b.bits), &mut d))
        }
        5 => {
            let mut d = std::mem::take(&mut b.dec);
            let last = d.len() - 1;
            d[last] = Polynomial::zero(wrong);
            b.ps.copy_from(&p);
            let r = ctx::guard(|| b.ps.decompose_inplace(Basis::<F>::new(b.bits), &mut d));
            d[last] = Polynomial::zero(n);
            b.dec = d;
            r
        }
        _ => ctx::guard(|| NTTRLWE::from(x.clone()).inverse_transform_inplace(&mut RLWE::zero(wrong))),
    };
    ctx::count(if res.is_err() { "operations that died half way" } else { "operations with odd sizes that completed" }, 1);
}

fn run<F: Fx>(c: &Case) {
    let nt = c.get("threads").clamp(1, 40) as usize;
    let nb = c.get("sets").clamp(1, 4) as usize;
    let qb = 64 - F::q().leading_zeros();
    let mut sets = vec![];
    for k in 0..nb {
        let logn = (c.get(&format!("logn{k}")).max(0) as u32).min(max_log::<F>().min(7));
        let bits = (c.get(&format!("bits{k}")).max(1) as u32).min(qb.min(20));
        match ctx::must("buffers", || Bufs::<F>::new(logn, bits)) {
            Some(b) => sets.push((k, b)),
            None => return,
        }
    }
    let pool = Arc::new(Mutex::new(sets));
    let c = Arc::new(c.clone());
    team(nt, move |me| {
        for o in &c.ops {
            if o.idx(0, nt) != me || ctx::failed() {
                continue;
            }
            // whichever set is free, the wanted one if possible
            let mut b = loop {
                let mut g = pool.lock().unwrap();
                let want = o.idx(1, nb);
                if let Some(i) = g.iter().position(|x| x.0 == want).or(if g.is_empty() { None } else { Some(0) }) {
                    break g.swap_remove(i);
                }
                drop(g);
                rt::point();
                std::thread::yield_now();
            };
            let first = o;
            for again in 0..1 + o.arg(7).clamp(0, 5000) {
                if ctx::failed() {
                    break;
                }
                // the same operation on other values
                let mut o = first.clone();
                if again > 0 {
                    (o.a[2], o.a[3]) = (mix64((o.arg(2) + again) as u64) as i64 >> 20, mix64((o.arg(3) + again) as u64) as i64 >> 20);
                    o.a[4] = 7 - o.arg(4).rem_euclid(8) * (again & 1);
                }
                let o = &o;
                let s = &mut b.1;
                let mut r = Rg::new(mix64(o.arg(3) as u64));
                let how = o.arg(4).rem_euclid(8);
                if how < 5 {
                    let _q = rt::quiet();
                    s.scribble(how, &mut r);
                    ctx::count("buffers overwritten before use", 1);
                } else if s.uses > 0 {
                    ctx::count("buffers reused as they were", 1);
                }
                if o.arg(6).rem_euclid(5) == 0 {
                    abort(o, s);
                    s.uses += 1;
                }
                if let Some(Some(out)) = ctx::must(&format!("operation {} {:?} with N = {}", o.k, o.a, s.n), || op(o, s)) {
                    let q = F::q();
                    let red: Vec<u64> = out.got.iter().map(|v| v % q).collect();
                    let top = if out.lazy { 2 * q } else { q };
                    let words = o.k == "lwe" || o.k == "digits";
                    ctx::count("results compared", 1);
                    if s.uses > 0 || how < 5 {
                        ctx::nontrivial();
                    }
                    ctx::event(&o.k, &[ctx::digest(red.iter().copied()), s.n as u64]);
                    ctx::check(out.same, "input-changed", || format!("operation {} {:?} changed an input (N = {}, {})", o.k, o.a, s.n, F::NAME));
                    ctx::check(words || out.got.iter().all(|&v| v < top), "out-of-range", || format!("operation {} {:?} left a value not below {top}", o.k, o.a));
                    let ok = if words { out.got == out.want } else { red == out.want };
                    ctx::check(ok, "stale", || {
                        let at = out.got.iter().zip(&out.want).position(|(x, y)| x % q != *y).unwrap_or(0);
                        format!(
                            "operation {} {:?} over {} (N = {}, basis bits {}): the used destination holds {:?} at {at}, the counterpart gives {:?} (lengths {} and {})",
                            o.k, o.a, F::NAME, s.n, s.bits, out.got.get(at), out.want.get(at), out.got.len(), out.want.len()
                        )
                    });
                    ctx::state(&[crate::rg::hash_str(&o.k), o.arg(5).rem_euclid(64) as u64, how as u64]);
                }
                s.uses += 1;
            }
            pool.lock().unwrap().push(b);
        }
    });
}
fn exec(c: &Case) {
    with_field!(c.get("field"), F => run::<F>(c))
}
const OPS: [&str; 11] = ["poly", "npoly", "transform", "rlwe", "nrlwe", "accumulate", "external", "gadget", "rgsw", "digits", "lwe"];
fn gen(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P08");
    let big = tier == "thorough" && i % 20 == 0;
    c.set("field", r.below(12) as i64);
    let sets = r.range(1, 4);
    c.set("sets", sets);
    for k in 0..sets {
        c.set(&format!("logn{k}"), if big { r.range(5, 7) } else { r.range(0, 5) });
        c.set(&format!("bits{k}"), match r.below(4) { 0 => 1, 1 => r.range(8, 20), _ => r.range(2, 8) });
    }
    let usual = if r.chance(650) { 1 } else { r.range(2, 3) as u64 };
    let nt = r.crowd(usual);
    c.set("threads", nt);
    c.sched = gen_sched(r, 16, nt > 1);
    let fav = *r.pick(&OPS);
    if r.chance(10) {
        c.set("logn0", r.range(0, 3));
        c.op(fav, &[0, 0, r.below(1 << 40) as i64, r.below(1 << 40) as i64, r.below(8) as i64, r.below(1 << 10) as i64, 1, *r.pick(&[150, 300, 1100])]);
    }
    for _ in 0..8 + r.below(40) {
        let k = if r.chance(250) { fav } else { *r.pick(&OPS) };
        c.op(k, &[r.below(nt as u64) as i64, r.below(sets as u64) as i64, r.below(1 << 40) as i64, r.below(1 << 40) as i64, r.below(8) as i64, r.below(1 << 10) as i64, r.below(25) as i64]);
    }
    c
}

pub static P08: PropDef = PropDef {
    id: "P08",
    neighbour: true,
    gen,
    exec,
    outer: None,
    runs_quick: 20000,
    runs_thorough: 400000,
    race: 2000,
    rule: "a run is nontrivial when at least one operation wrote into a used or overwritten buffer and was compared; distinct by history of every result, and by schedule",
    real: &["algebra (polynomials, transforms, decomposition)", "lattice (RLWE, gadget, RGSW, spaces)", "fhe_core modulus switch"],
    stub: STUB_OS,
    assumptions: &["counterparts are the allocating or by-value forms of the same library, themselves compared with integer references under P03 and P14; dimensions up to 128"],
};
