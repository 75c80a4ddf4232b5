//! P10: primality verdicts under seeded and biased system entropy, from several threads.
use super::{PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fields::{mulm, powm};
use crate::rg::Rg;
use crate::rt;
use crate::with_field;
use algebra::derive::*;
use algebra::modulus::BarrettModulus;
use algebra::utils::Prime as _;
use algebra::PrimeField;
use std::sync::Arc;

/// Strong pseudoprimes to base 2 without small factors.
const PSP: [u64; 267] = [42799, 49141, 65281, 80581, 88357, 90751, 104653, 130561, 196093, 220729, 253241, 256999, 271951, 280601, 357761, 390937, 458989, 486737, 489997, 514447, 580337, 647089, 741751, 818201, 838861, 873181, 877099, 916327, 976873, 983401, 1016801, 1082401, 1145257, 1194649, 1207361, 1251949, 1252697, 1302451, 1325843, 1357441, 1373653, 1397419, 1441091, 1493857, 1507963, 1509709, 1530787, 1678541, 1730977, 1811573, 1876393, 1969417, 1987021, 2004403, 2081713, 2181961, 2205967, 2264369, 2269093, 2284453, 2304167, 2387797, 2510569, 2746477, 2748023, 2757241, 2811271, 2909197, 2976487, 3090091, 3116107, 3125281, 3375041, 3400013, 3429037, 3539101, 3567481, 3605429, 3898129, 4181921, 4188889, 4360621, 4469471, 4513841, 4835209, 4863127, 5016191, 5044033, 5173169, 5173601, 5256091, 5489641, 5590621, 5672041, 5919187, 6140161, 6226193, 6233977, 6334351, 6368689, 6386993, 6787327, 6836233, 6952037, 7306261, 7306561, 7462001, 7674967, 7759937, 7820201, 7883731, 8036033, 8095447, 8384513, 8534233, 8725753, 8727391, 9006401, 9056501, 9073513, 9371251, 9564169, 9567673, 9588151, 9729301, 9774181, 9863461, 10323769, 10386241, 10425511, 10610063, 10712857, 10763653, 10974881, 11081459, 11335501, 11541307, 11585293, 11777599, 12263131, 12327121, 13057787, 13338371, 13446253, 13500313, 13635289, 13694761, 13747361, 14179537, 14324473, 14709241, 14794081, 14865121, 15101893, 15139199, 15188557, 15220951, 15247621, 15479777, 15603391, 15802681, 15976747, 15978007, 16070429, 16132321, 16324001, 16360381, 16705021, 16773121, 16822081, 16853077, 16879501, 17116837, 17134043, 17208601, 17327773, 17375249, 17585969, 18073817, 18366937, 18443701, 18454921, 18535177, 18653353, 18740971, 19328653, 19404139, 19471033, 19607561, 20261251, 20417311, 20647621, 21303343, 21306157, 21359521, 21400481, 21623659, 22075579, 22087477, 22591301, 22669501, 22849481, 22953673, 23464033, 23577497, 23734901, 23828017, 23872213, 23963869, 24214051, 25080101, 25326001, 25629913, 26377921, 26821601, 26840269, 26877421, 27108397, 27118601, 27219697, 27271151, 27279409, 27331921, 27380831, 27392041, 27509653, 27664033, 27798461, 27808463, 28325881, 28527049, 28572961, 29111881, 29214541, 29581501, 30022129, 30185569, 30219757, 30295141, 30388753, 30418957, 30576151, 30662497, 30740417, 30881551, 30894307, 31166803, 31436123, 33627301, 33704101, 34003061, 34856167, 35576599, 35703361, 35820937, 35851037, 36307981, 36861901, 36919681, 37109467, 37439201, 38010307, 38046817, 38118763, 38210323, 39465091, 39655153];

// "fields" whose modulus is composite
mod bad1 {
    use super::*;
    #[derive(Field, Prime)]
    #[modulus = 88357]
    pub struct Bad1(u32);
}
mod bad2 {
    use super::*;
    #[derive(Field, Prime)]
    #[modulus = 3215031751]
    pub struct Bad2(u64);
}

/// deterministic: the first twelve primes as bases decide every 64-bit number
pub fn is_prime(n: u64) -> bool {
    const B: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    if n < 2 {
        return false;
    }
    for p in B {
        if n % p == 0 {
            return n == p;
        }
    }
    let r = (n - 1).trailing_zeros();
    let d = (n - 1) >> r;
    'b: for a in B {
        let mut x = powm(a, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..r {
            x = mulm(x, x, n);
            if x == n - 1 {
                continue 'b;
            }
        }
        return false;
    }
    true
}
fn next_prime(mut n: u64, top: u64) -> u64 {
    n |= 1;
    loop {
        if n >= top {
            n = 61;
        }
        if is_prime(n) {
            return n;
        }
        n += 2;
    }
}
/// largest modulus the reduction supports: two bits less than the type
fn limit(w: usize) -> u64 {
    [1 << 6, 1 << 14, 1 << 30, 1 << 62][w]
}
fn number(class: usize, w: usize, seed: i64) -> u64 {
    let mut r = Rg::new(seed as u64);
    let top = limit(w);
    let bits = 63 - top.leading_zeros();
    let n = match class {
        0 => { let b = 6.min(bits - 1) + r.below((bits - 6.min(bits - 1)) as u64) as u32; let x = r.below(1 << b.max(1)) | 1 << (b.max(1) - 1); next_prime(x, top) }
        1 => {
            // p (k (p - 1) + 1) with both factors prime: many bases pass
            let k = 2 + r.below(4);
            let half = (bits / 2).saturating_sub(2).max(3);
            let mut p = next_prime(r.below(1 << half), top);
            for _ in 0..400 {
                if p > 57 && is_prime(k * (p - 1) + 1) {
                    break;
                }
                p = next_prime(p + 2, 1 << half);
            }
            p * (k * (p - 1) + 1)
        }
        2 => {
            // Carmichael numbers (6k+1)(12k+1)(18k+1)
            let mut k = 10 + r.below(1 << (bits / 3).saturating_sub(4).max(1));
            for _ in 0..2000 {
                if is_prime(6 * k + 1) && is_prime(12 * k + 1) && is_prime(18 * k + 1) {
                    break;
                }
                k += 1;
            }
            (6 * k + 1).wrapping_mul(12 * k + 1).wrapping_mul(18 * k + 1)
        }
        3 => {
            let a = 6 + r.below((bits / 2).saturating_sub(6).max(1) as u64) as u32;
            let p = next_prime(59 + r.below(1 << a), top);
            let q = next_prime(59 + r.below(1 << (bits - a).min(31)), top);
            p.wrapping_mul(q)
        }
        4 => {
            let p = match r.below(4) { 0 => 1093, 1 => 3511, _ => next_prime(59 + r.below(1 << (bits / 2 - 1).min(30)), top) };
            p * p
        }
        5 => *r.pick(&PSP),
        6 => 2 + r.below(4096),
        7 => r.below(top / 64) * (2 + r.below(60)),
        8 => top - 1 - r.below((top / 2).min(200)),
        9 => {
            let b = 2 + r.below(bits as u64 - 1);
            (1u64 << b) - 1 + 2 * r.below(2)
        }
        _ => r.below(top) | 1,
    };
    if n < 2 || n >= top { next_prime(n % top, top) } else { n }
}
fn verdict(w: usize, n: u64, rounds: usize) -> bool {
    match w {
        0 => BarrettModulus::<u8>::new(n as u8).probably_prime(rounds),
        1 => BarrettModulus::<u16>::new(n as u16).probably_prime(rounds),
        2 => BarrettModulus::<u32>::new(n as u32).probably_prime(rounds),
        _ => BarrettModulus::<u64>::new(n).probably_prime(rounds),
    }
}
fn one(o: &Op) {
    if o.k == "field" {
        let k = o.arg(1);
        let (got, want) = match k.rem_euclid(14) {
            12 => (bad1::Bad1::is_prime_field(), false),
            13 => (bad2::Bad2::is_prime_field(), false),
            k => (with_field!(k, F => F::is_prime_field()), true),
        };
        ctx::check(got == want, "wrong-verdict", || format!("field {} judged prime: {got}", k.rem_euclid(14)));
        ctx::event("field", &[k as u64, got as u64]);
        return;
    }
    let w = o.idx(1, 4);
    let class = o.idx(2, 11);
    let (n, prime) = {
        let _q = rt::quiet();
        let n = number(class, w, o.arg(3));
        (n, is_prime(n))
    };
    // any width that can hold it
    let w = (w..4).find(|&w| n < limit(w)).unwrap_or(3);
    let rounds = if o.arg(4) & 3 == 0 { o.arg(4).rem_euclid(200) as usize / 4 } else { 20 + o.arg(4).rem_euclid(20) as usize };
    match ctx::must("probably_prime", || verdict(w, n, rounds)) {
        None => {}
        Some(v) => {
            ctx::event("verdict", &[n, rounds as u64, v as u64]);
            if prime {
                ctx::count("primes judged", 1);
                ctx::check(v, "prime-rejected", || format!("the prime {n} ({} bits wide) is rejected with {rounds} rounds", 8 << w));
            } else if rounds >= 20 {
                ctx::count("composites judged", 1);
                ctx::check(!v, "composite-accepted", || format!("the composite {n} ({} bits wide) is accepted with {rounds} rounds", 8 << w));
            }
        }
    }
}
fn exec_p10(c: &Case) {
    let nt = c.get("threads").clamp(1, 40) as usize;
    let body = {
        let c = c.clone();
        Arc::new(move |me: usize| {
            for o in &c.ops {
                if o.idx(0, nt) == me {
                    one(o);
                }
            }
        })
    };
    let mut hs = vec![];
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::spawn(move || b(t)));
    }
    body(0);
    for h in hs {
        ctx::check(h.join().is_ok(), "panic", || ctx::with(|c| format!("a thread panicked: {}", c.last_panic)));
    }
    if !c.ops.is_empty() {
        ctx::nontrivial();
    }
}
fn gen_p10(r: &mut Rg, _i: u64, tier: &str) -> Case {
    let mut c = Case::new("P10");
    let usual = 1 + r.below(3);
    let nt = r.crowd(usual) as u64;
    c.set("threads", nt as i64);
    c.sched = gen_sched(r, 14, true);
    if r.chance(300) {
        c.sched.biased = 1 + r.below(4) as u32;
    }
    for _ in 0..4 + r.below(if tier == "thorough" { 60 } else { 30 }) + if nt > 8 { nt } else { 0 } + if r.chance(5) { 400 } else { 0 } {
        let t = r.below(nt) as i64;
        if r.chance(80) {
            c.op("field", &[t, r.below(14) as i64]);
        } else {
            let w = *r.pick(&[0, 1, 1, 2, 2, 2, 3, 3, 3]);
            let class = *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 5, 6, 7, 8, 9, 10]);
            c.op("chk", &[t, w, class, r.below(1 << 40) as i64, r.below(1 << 20) as i64]);
        }
    }
    c
}

pub static P10: PropDef = PropDef {
    id: "P10",
    neighbour: false,
    gen: gen_p10,
    exec: exec_p10,
    outer: None,
    runs_quick: 40000,
    runs_thorough: 500000,
    race: 0,
    rule: "a run is nontrivial when at least one number was judged; distinct by history of numbers, rounds and verdicts, and by schedule",
    real: &["algebra::utils::prime, BarrettModulus, derived PrimeField", "rand (StdRng, ThreadRng)"],
    stub: STUB_OS,
    assumptions: &["a composite passing twenty rounds by luck (below 1e-11 per number) is taken as a violation"],
};
