//! P01: a client and an evaluator over a faulty network; P02: many threads sharing one evaluator.
use super::{PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fhe::*;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::rt;
use crate::with_cq;
use algebra::{AsInto, Polynomial};
use fhe_core::{LWECiphertext, LWEModulusType, Parameters, SecretKeyPack};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::sync::Arc;
use zkfhe::bfhe::Evaluator;
use zkfhe::{Decryptor, Encryptor, KeyGen};

const GATES: [&str; 9] = ["not", "nand", "and", "or", "nor", "xor", "xnor", "maj", "mux"];

fn plain(g: usize, a: bool, b: bool, c: bool) -> bool {
    match g {
        0 => !a,
        1 => !(a & b),
        2 => a & b,
        3 => a | b,
        4 => !(a | b),
        5 => a != b,
        6 => a == b,
        7 => (a as u8 + b as u8 + c as u8) >= 2,
        _ => if a { b } else { c },
    }
}
fn gate<C: LWEModulusType, Q: Fx>(e: &Evaluator<C, Q>, g: usize, x: &[&LWECiphertext<C>]) -> LWECiphertext<C> {
    match g {
        0 => e.not(x[0]),
        1 => e.nand(x[0], x[1]),
        2 => e.and(x[0], x[1]),
        3 => e.or(x[0], x[1]),
        4 => e.nor(x[0], x[1]),
        5 => e.xor(x[0], x[1]),
        6 => e.xnor(x[0], x[1]),
        7 => e.majority(x[0], x[1], x[2]),
        _ => e.mux(x[0], x[1], x[2]),
    }
}

/// A wire: an input bit, or a gate over earlier wires.
#[derive(Clone, Debug)]
enum Wire {
    In(bool, u64),
    /// a close relative of an earlier input: (input, kind, seed)
    Var(usize, i64, u64),
    Gate(usize, [usize; 3]),
}
fn wires(c: &Case) -> Vec<Wire> {
    let mut w: Vec<Wire> = vec![];
    for o in &c.ops {
        if o.k == "in" || w.is_empty() {
            w.push(Wire::In(o.arg(0) & 1 == 1, o.arg(1) as u64));
        } else if o.k == "var" {
            let ins: Vec<usize> = (0..w.len()).filter(|&i| !matches!(w[i], Wire::Gate(..))).collect();
            w.push(Wire::Var(ins[o.idx(0, ins.len())], o.arg(1), o.arg(2) as u64));
        } else if o.k == "gate" {
            let g = o.idx(0, 9);
            // recent wires are preferred, so that circuits get deep
            let pick = |i: usize| {
                let n = w.len();
                let back = o.arg(i).rem_euclid(1 << 20) as usize;
                if back & 1 == 0 { n - 1 - (back / 2) % n.min(3) } else { (back / 2) % n }
            };
            w.push(Wire::Gate(g, [pick(1), pick(2), pick(3)]));
        }
    }
    w
}

/// Parameters of a case: toy ones, or (cfg "shipped") one of the two shipped sets.
enum Set {
    Toy(Pg),
    Shipped(bool),
}
fn set_of(c: &Case) -> Option<Set> {
    match c.get("shipped") {
        1 => Some(Set::Shipped(false)),
        2 => Some(Set::Shipped(true)),
        _ => {
            let p = Pg::load(c);
            if p.gates_ok() { Some(Set::Toy(p)) } else { None }
        }
    }
}

type Msg<C> = (u64, u64, u8, usize, Option<LWECiphertext<C>>);

struct Node<C: LWEModulusType, Q: Fx> {
    ev: Option<Evaluator<C, Q>>,
    store: BTreeMap<usize, LWECiphertext<C>>,
}

fn session<C: LWEModulusType, Q: Fx>(c: &Case, params: Parameters<C, Q>)
where
    u64: AsInto<C>,
{
    let q = cu(params.lwe_cipher_modulus_value());
    let ws = wires(c);
    if ws.is_empty() {
        return;
    }
    // client
    let mut rng = SimRng::new(c.get("keyseed") as u64);
    let sk: SecretKeyPack<C, Q> = KeyGen::generate_secret_key(params, &mut rng);
    let s = lwe_key(&sk);
    let enc = Encryptor::new(sk.clone());
    let dec = Decryptor::new(sk.clone());
    let evseed = mix64(c.get("keyseed") as u64 ^ 77);
    let start = || Evaluator::<C, Q>::new(&sk, &mut SimRng::new(evseed));
    let signed: Vec<i64> = s.iter().map(|&v| centred(v, q)).collect();
    let mut inputs: BTreeMap<usize, LWECiphertext<C>> = BTreeMap::new();
    let truth: Vec<bool> = {
        let mut t: Vec<bool> = vec![];
        for (i, w) in ws.iter().enumerate() {
            let v = match w {
                Wire::In(b, seed) => {
                    inputs.insert(i, enc.encrypt(*b, &mut SimRng::new(*seed)));
                    *b
                }
                Wire::Var(j, kind, seed) => {
                    let _q = rt::quiet();
                    let (ct, v) = variant(&inputs[j], t[*j], *kind, *seed, &signed, q);
                    inputs.insert(i, ct);
                    v
                }
                Wire::Gate(g, x) => plain(*g, t[x[0]], t[x[1]], t[x[2]]),
            };
            t.push(v);
        }
        t
    };
    let depth: Vec<u64> = {
        let mut d: Vec<u64> = vec![];
        for w in &ws {
            let v = match w {
                Wire::In(..) | Wire::Var(..) => 0,
                Wire::Gate(g, x) => 1 + x[..if *g == 0 { 1 } else if *g < 7 { 2 } else { 3 }].iter().map(|&i| d[i]).max().unwrap_or(0),
            };
            d.push(v);
        }
        d
    };
    ctx::max("max circuit depth", *depth.iter().max().unwrap());
    // results computed before a crash must be recomputed identically after it
    let mut seen: BTreeMap<usize, u64> = BTreeMap::new();
    let check_wire = |i: usize, ct: &LWECiphertext<C>, seen: &mut BTreeMap<usize, u64>, how: &str| {
        let d = cdigest(ct);
        let old = *seen.entry(i).or_insert(d);
        ctx::check(old == d, "not-reproducible", || format!("wire {i} {:?}: {how} gives a different ciphertext", ws[i]));
        let ph = phase(ct, &s, q);
        let (m, e) = nearest(ph, q, 4);
        let is_gate = matches!(ws[i], Wire::Gate(..));
        ctx::check(m == truth[i] as u64, "wrong-value", || {
            format!("wire {i} {:?} at depth {}: phase {ph} of {q} decrypts to {m}, expected {}", ws[i], depth[i], truth[i] as u64)
        });
        if is_gate {
            ctx::check(e * 16 < q, "noise", || format!("wire {i} {:?}: noise {e} of {q}", ws[i]));
        }
        ctx::max("max noise, per mille of q/16", e * 16000 / q);
        ctx::event("wire", &[i as u64, m, e, d]);
    };
    // a chain of gates on results of gates, deeper than any circuit sent over the network
    let links = c.get("chain").clamp(0, 3000);
    if links > 0 && !inputs.is_empty() {
        let ev = start();
        let mut r = Rg::new(c.get("netseed") as u64 ^ 77);
        let start: Vec<(LWECiphertext<C>, bool)> = inputs.iter().map(|(i, ct)| (ct.clone(), truth[*i])).collect();
        let mut last = vec![start[0].clone(); 3];
        for k in 0..links as u64 {
            let g = r.below(9) as usize;
            let arg: Vec<(LWECiphertext<C>, bool)> = (0..3).map(|_| if r.chance(250) { r.pick(&start).clone() } else { r.pick(&last).clone() }).collect();
            // a gate of a value with itself, or of negations of it, is as good as any other
            let x: Vec<&LWECiphertext<C>> = arg.iter().map(|a| &a.0).collect();
            let out = gate(&ev, g, &x);
            let want = plain(g, arg[0].1, arg[1].1, arg[2].1);
            let (m, e) = nearest(phase(&out, &s, q), q, 4);
            ctx::check(m == want as u64, "wrong-value", || format!("gate {} number {k} of a chain decrypts to {m}, expected {}", GATES[g], want as u64));
            ctx::check(e * 16 < q, "noise", || format!("gate {} number {k} of a chain: noise {e} of {q}", GATES[g]));
            ctx::event("link", &[m, e, cdigest(&out)]);
            if ctx::failed() {
                return;
            }
            last[(k % 3) as usize] = (out, want);
        }
        ctx::count("gates in long chains", links as u64);
        ctx::max("max chain of gates", links as u64);
    }
    let mut r = Rg::new(c.get("netseed") as u64);
    let (drop, dup, crash) = (c.get("drop").clamp(0, 800) as u64, c.get("dup").clamp(0, 800) as u64, c.get("crash").clamp(0, 300) as u64);
    let inorder = c.get("inorder") != 0;
    let maxdelay = 1 + c.get("delay").clamp(0, 1000) as u64;
    let mut node: Node<C, Q> = Node { ev: Some(start()), store: BTreeMap::new() };
    let mut heap: BinaryHeap<std::cmp::Reverse<(u64, u64)>> = BinaryHeap::new();
    let mut body: BTreeMap<u64, Msg<C>> = BTreeMap::new();
    let mut seq = 0u64;
    let mut got: BTreeSet<usize> = BTreeSet::new();
    let outputs: BTreeSet<usize> = (0..ws.len()).filter(|&i| matches!(ws[i], Wire::Gate(..))).collect();
    let mut now = 0u64;
    let mut faulty = true;
    let mut crashes = 0u64;
    macro_rules! send {
        ($kind:expr, $i:expr, $ct:expr) => {{
            let copies = if faulty && r.chance(dup) { ctx::count("fault message duplicated", 1); 2 } else { 1 };
            for _ in 0..copies {
                if faulty && r.chance(drop) {
                    ctx::count("fault message lost", 1);
                    continue;
                }
                let d = 1 + r.below(if faulty { maxdelay } else { 2 });
                if d > 1 { ctx::count("fault message delayed or reordered", 1); }
                seq += 1;
                heap.push(std::cmp::Reverse((now + d, seq)));
                body.insert(seq, (now + d, seq, $kind, $i, $ct));
            }
        }};
    }
    // rounds of (re)transmission; faults stop after `rounds`
    let rounds = c.get("rounds").clamp(1, 12) as u64;
    let mut round = 0u64;
    loop {
        round += 1;
        if round > rounds {
            faulty = false;
        }
        if round > rounds + 3 {
            ctx::fail("no-progress", format!("{} of {} results still missing after the network healed", outputs.len() - got.len(), outputs.len()));
            break;
        }
        if node.ev.is_none() {
            ctx::count("fault evaluator restarted from its key seed", 1);
            node.ev = Some(start());
        }
        if got.len() < outputs.len() {
            for (i, ct) in &inputs {
                send!(0, *i, Some(ct.clone()));
            }
        }
        let end = now + 4 * maxdelay + 4;
        while let Some(&std::cmp::Reverse((t, id))) = heap.peek() {
            if t > end {
                break;
            }
            heap.pop();
            now = t;
            let (_, _, kind, i, ct) = body.remove(&id).unwrap();
            if ctx::failed() {
                return;
            }
            if faulty && crashes < 2 && r.chance(crash) && node.ev.is_some() {
                crashes += 1;
                ctx::count("fault evaluator crash", 1);
                node = Node { ev: None, store: BTreeMap::new() };
            }
            match kind {
                0 => {
                    if node.ev.is_none() {
                        continue;
                    }
                    if let Some(have) = node.store.get(&i) {
                        ctx::check(Some(have) == ct.as_ref(), "input-changed", || format!("stored ciphertext {i} differs from its retransmission"));
                    } else {
                        node.store.insert(i, ct.unwrap());
                    }
                    // evaluate whatever is ready, in random order, a few gates at a time
                    let burst = 1 + r.below(6);
                    for _ in 0..burst {
                        let ready: Vec<usize> = outputs
                            .iter()
                            .copied()
                            .filter(|o| {
                                !node.store.contains_key(o)
                                    && match &ws[*o] {
                                        Wire::Gate(_, x) => x.iter().all(|k| node.store.contains_key(k)),
                                        _ => false,
                                    }
                            })
                            .collect();
                        if ready.is_empty() {
                            break;
                        }
                        let o = if inorder { ready[0] } else { *r.pick(&ready) };
                        if let Wire::Gate(g, x) = &ws[o] {
                            let args: Vec<&LWECiphertext<C>> = x.iter().map(|k| &node.store[k]).collect();
                            let before: Vec<u64> = args.iter().map(|a| cdigest(a)).collect();
                            let out = gate(node.ev.as_ref().unwrap(), *g, &args);
                            ctx::check(args.iter().map(|a| cdigest(a)).collect::<Vec<_>>() == before, "input-changed", || format!("gate {} changed an input", GATES[*g]));
                            ctx::count("gates evaluated", 1);
                            check_wire(o, &out, &mut seen, "evaluating again");
                            node.store.insert(o, out);
                            if ctx::failed() {
                                return;
                            }
                        }
                        if r.chance(500) && got.len() < outputs.len() {
                            let k = *r.pick(&outputs.iter().copied().collect::<Vec<_>>());
                            if let Some(ct) = node.store.get(&k) {
                                send!(1, k, Some(ct.clone()));
                            }
                        }
                    }
                    if !faulty || r.chance(300) {
                        for (k, ct) in node.store.clone() {
                            if outputs.contains(&k) && !got.contains(&k) {
                                send!(1, k, Some(ct.clone()));
                            }
                        }
                    }
                }
                _ => {
                    let ct = ct.unwrap();
                    let v: bool = match ctx::must("decrypt", || dec.decrypt(&ct)) {
                        Some(v) => v,
                        None => return,
                    };
                    ctx::check(v == truth[i], "wrong-value", || format!("client decrypts wire {i} {:?} to {v}", ws[i]));
                    let (v2, e): (bool, C) = dec.decrypt_with_noise(&ct);
                    ctx::check(v2 == v && AsInto::<u64>::as_into(e) * 16 < q, "noise", || format!("client sees noise {e} on wire {i}"));
                    got.insert(i);
                    ctx::event("received", &[i as u64, v as u64]);
                }
            }
        }
        now = end;
        // after the network healed, missing gates are computed on retransmission
        if !faulty && node.ev.is_some() {
            for o in outputs.iter().copied() {
                if node.store.contains_key(&o) {
                    continue;
                }
                if let Wire::Gate(g, x) = &ws[o] {
                    if x.iter().all(|k| node.store.contains_key(k)) {
                        let args: Vec<&LWECiphertext<C>> = x.iter().map(|k| &node.store[k]).collect();
                        let out = gate(node.ev.as_ref().unwrap(), *g, &args);
                        check_wire(o, &out, &mut seen, "evaluating again");
                        node.store.insert(o, out);
                        if ctx::failed() {
                            return;
                        }
                    }
                }
            }
            for (k, ct) in node.store.clone() {
                if outputs.contains(&k) && !got.contains(&k) {
                    send!(1, k, Some(ct.clone()));
                }
            }
        }
        ctx::state(&[round, got.len() as u64, crashes, node.store.len() as u64]);
        if got.len() == outputs.len() && heap.is_empty() {
            break;
        }
        if got.len() == outputs.len() && round > rounds {
            break;
        }
    }
    if outputs.len() >= 2 {
        ctx::nontrivial();
    }
    ctx::sample(format!("{} wires, depth {}, {} crashes, {} rounds", ws.len(), depth.iter().max().unwrap(), crashes, round));
}

fn exec_p01(c: &Case) {
    let pool = c.get("pool").clamp(1, 4) as usize;
    let _ = rayon::ThreadPoolBuilder::new().num_threads(pool).build_global();
    match set_of(c) {
        None => {}
        Some(Set::Shipped(custom)) => {
            let p = if custom { *zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS } else { *zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS };
            session::<u16, DefaultFieldU32>(c, p)
        }
        Some(Set::Toy(p)) => with_cq!(p.pair, C, Q => session::<C, Q>(c, p.params::<C, Q>())),
    }
}

fn gen_circuit(r: &mut Rg, c: &mut Case, gates: u64) {
    let nin = 2 + r.below(4);
    for _ in 0..nin {
        let s = r.below(1 << 40) as i64;
        c.op("in", &[r.below(2) as i64, s]);
    }
    // relatives of inputs, which a gate may meet right after the original
    let mut twins: Vec<(i64, i64)> = vec![];
    if r.chance(600) {
        for _ in 0..1 + r.below(3) {
            let (src, kind, seed) = (r.below(nin) as i64, r.below(4) as i64, r.below(1 << 40) as i64);
            twins.push((src, (nin + twins.len() as u64) as i64));
            c.op("var", &[src, kind, seed]);
        }
        c.set("inorder", r.below(2) as i64);
    }
    let deep = r.chance(500);
    for _ in 0..gates {
        let g = if r.chance(200) { 8 } else { r.below(9) as i64 };
        let mut x = [0i64; 3];
        for v in x.iter_mut() {
            *v = (r.below(1 << 19) as i64) * 2 + if deep && r.chance(700) { 0 } else { 1 };
        }
        if !twins.is_empty() && r.chance(350) {
            let (a, b) = *r.pick(&twins);
            let other = r.below(nin + twins.len() as u64) as i64;
            let at = r.below(if g == 0 { 1 } else if g < 7 { 2 } else { 3 }) as usize;
            x = [2 * other + 1; 3];
            for w in [a, b] {
                x[at] = 2 * w + 1;
                c.op("gate", &[g, x[0], x[1], x[2]]);
            }
            continue;
        }
        c.op("gate", &[g, x[0], x[1], x[2]]);
    }
}
fn gen_p01(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P01");
    let thorough = tier == "thorough";
    c.set("keyseed", r.below(1 << 40) as i64);
    c.set("netseed", r.below(1 << 40) as i64);
    c.set("pool", 1 + r.below(3) as i64);
    c.sched = gen_sched(r, 24, true);
    // shipped parameters are slow: a few of the runs
    let shipped = if thorough { i % 40 < 2 } else { i < 2 };
    if shipped {
        c.set("shipped", 1 + (i % 2) as i64);
        c.set("drop", 100).set("dup", 100).set("delay", 3).set("rounds", 2);
        c.sched.strategy = 0;
        c.sched.param = 1 << 19;
        gen_circuit(r, &mut c, if thorough { 14 } else { 4 });
        return c;
    }
    gen_params(r, &mut c, true, r_small(i));
    if r.chance(25) {
        let (was, links) = (c.clone(), *r.pick(&[150, 300, 600]));
        c.set("logn", 4).set("n", r.range(2, 6)).set("chain", links);
        if !Pg::load(&c).gates_ok() {
            c = was;
        }
    }
    c.set("drop", r.below(400) as i64);
    c.set("dup", r.below(400) as i64);
    c.set("crash", if r.chance(500) { r.below(120) as i64 } else { 0 });
    c.set("delay", r.below(20) as i64);
    c.set("rounds", 1 + r.below(4) as i64);
    let g = 3 + r.below(if thorough { 40 } else { 20 });
    gen_circuit(r, &mut c, g);
    if c.sched.strategy == 0 {
        c.sched.param = c.sched.param.max(1000);
    }
    c
}
fn r_small(i: u64) -> bool {
    i % 4 != 0
}

// ------------------------------------------------------------------------------------------ P02
fn concurrent<C: LWEModulusType + 'static, Q: Fx>(c: &Case, params: Parameters<C, Q>)
where
    u64: AsInto<C>,
{
    let nt = c.get("threads").clamp(1, 40) as usize;
    let mut rng = SimRng::new(c.get("keyseed") as u64);
    let sk: SecretKeyPack<C, Q> = KeyGen::generate_secret_key(params, &mut rng);
    let s = lwe_key(&sk);
    let q = cu(params.lwe_cipher_modulus_value());
    let ev = Arc::new(Evaluator::<C, Q>::new(&sk, &mut SimRng::new(c.get("keyseed") as u64 ^ 5)));
    let nb = 4usize;
    let mut bits: Vec<bool> = (0..nb).map(|i| c.get("bits") >> i & 1 == 1).collect();
    let mut cts: Vec<LWECiphertext<C>> = bits.iter().enumerate().map(|(i, &b)| sk.encrypt(b, &mut SimRng::new(c.get("keyseed") as u64 + 100 + i as u64))).collect();
    if c.get("twins") > 0 {
        let _q = rt::quiet();
        let signed: Vec<i64> = s.iter().map(|&v| centred(v, q)).collect();
        (cts[3], bits[3]) = variant(&cts[0], bits[0], c.get("twins"), c.get("keyseed") as u64, &signed, q);
    }
    let cts = Arc::new(cts);
    let before: Vec<u64> = cts.iter().map(cdigest).collect();
    // what each call returns: recorded by every caller, compared afterwards with a run alone
    type Key = (usize, [usize; 3]);
    let results: Arc<std::sync::Mutex<BTreeMap<Key, BTreeMap<u64, LWECiphertext<C>>>>> = Default::default();
    let record = {
        let results = results.clone();
        Arc::new(move |k: Key, ct: LWECiphertext<C>| {
            let d = cdigest(&ct);
            ctx::event("gate", &[k.0 as u64, k.1[0] as u64, k.1[1] as u64, k.1[2] as u64, d]);
            let _q = rt::quiet();
            results.lock().unwrap().entry(k).or_default().insert(d, ct);
        })
    };
    let key_of = move |o: &Op| -> Key {
        let g = o.idx(1, 9);
        (g, [o.idx(2, nb), if g == 0 { 0 } else { o.idx(3, nb) }, if g < 7 { 0 } else { o.idx(4, nb) }])
    };
    // a second pool besides the global one
    let pool = Arc::new(rayon::ThreadPoolBuilder::new().num_threads(c.get("pool2").clamp(1, 20) as usize).build().expect("pool"));
    let body = {
        let (c, ev, cts, record, pool) = (c.clone(), ev.clone(), cts.clone(), record.clone(), pool.clone());
        Arc::new(move |me: usize| {
            for o in &c.ops {
                if o.idx(0, nt) != me {
                    continue;
                }
                let k = key_of(o);
                let call = || {
                    let x: Vec<&LWECiphertext<C>> = k.1.iter().map(|&i| &cts[i]).collect();
                    gate(&*ev, k.0, &x)
                };
                match o.k.as_str() {
                    "call" => {
                        for _ in 0..1 + o.arg(7).clamp(0, 3000) {
                            record(k, call());
                        }
                    }
                    "pooled" => record(k, pool.install(call)),
                    "nested" => {
                        // several gates inside one pool, each of which may itself fork
                        let ks: Vec<Key> = (0..2 + o.idx(5, 3)).map(|j| { let mut kk = k; kk.1[0] = (kk.1[0] + j) % nb; kk }).collect();
                        let outs = pool.install(|| {
                            use rayon::prelude::*;
                            ks.par_iter()
                                .map(|k| {
                                    let x: Vec<&LWECiphertext<C>> = k.1.iter().map(|&i| &cts[i]).collect();
                                    (*k, gate(&*ev, k.0, &x))
                                })
                                .collect::<Vec<_>>()
                        });
                        for (k, ct) in outs {
                            record(k, ct);
                        }
                    }
                    "panic" => {
                        // another task of the same pool panics
                        ctx::count("fault panicking task", 1);
                        let out = ctx::guard(|| pool.install(|| rayon::join(call, || -> LWECiphertext<C> { panic!("simulated task failure") })));
                        ctx::check(out.is_err(), "panic-lost", || "a panic inside the pool disappeared".into());
                    }
                    "badcall" => {
                        // a call with a ciphertext of the wrong size may panic or not, but must stay contained
                        ctx::count("fault malformed call", 1);
                        let mut z = cts[0].clone();
                        let half = z.a().len() / 2;
                        z.a_mut().truncate(k.1[0].min(half));
                        let _ = ctx::guard(|| {
                            let x = [&z, &cts[k.1[1]], &z];
                            gate(&*ev, k.0, &x)
                        });
                    }
                    "badboot" => {
                        // ciphertexts no client made: numbers beyond the modulus, lookup tables of a wrong size
                        let mut r = Rg::new(o.arg(6) as u64);
                        for _ in 0..1 + o.idx(6, 6) {
                            ctx::count("fault malformed call", 1);
                            let big = |r: &mut Rg| -> C { let m = u64::MAX >> (64 - 8 * std::mem::size_of::<C>()); (m - r.below(m.min(1000))).as_into() };
                            let len = cts[0].a().len() + r.below(3) as usize;
                            let z = LWECiphertext::<C>::new((0..len).map(|_| if r.chance(500) { big(&mut r) } else { C::ONE }).collect(), if r.chance(300) { big(&mut r) } else { C::ONE });
                            let n = ev.parameters().ring_dimension();
                            let n = if r.chance(300) { n / 2 } else { n };
                            let lut = || Polynomial::<Q>::new(vec![Q::ONE; n]);
                            let bad = ctx::guard(|| if k.1[0] & 1 == 0 { ev.bootstrap(z.clone(), lut()) } else { pool.install(|| ev.bootstrap(z.clone(), lut())) });
                            ctx::count("malformed calls that died", bad.is_err() as u64);
                        }
                    }
                    "clone" => {
                        let e2 = (*ev).clone();
                        let x: Vec<&LWECiphertext<C>> = k.1.iter().map(|&i| &cts[i]).collect();
                        record(k, gate(&e2, k.0, &x));
                    }
                    "table" => {
                        // first use of another size by an unrelated thread
                        let t = Q::get_ntt_table(1 + o.idx(2, 8) as u32);
                        ctx::check(t.is_ok(), "table", || "supported size refused".into());
                    }
                    _ => {}
                }
            }
        })
    };
    let mut hs = vec![];
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || b(t)).unwrap());
    }
    if let Err(m) = ctx::guard(|| body(0)) {
        ctx::fail("panic", m);
    }
    for h in hs {
        if h.join().is_err() {
            ctx::fail("panic", ctx::with(|c| format!("a calling thread panicked: {}", c.last_panic)));
        }
    }
    ctx::check(cts.iter().map(cdigest).collect::<Vec<_>>() == before, "input-changed", || "a shared input ciphertext changed".into());
    // each distinct call once more, alone, and its meaning
    let results = std::mem::take(&mut *results.lock().unwrap());
    for (k, outs) in &results {
        let x: Vec<&LWECiphertext<C>> = k.1.iter().map(|&i| &cts[i]).collect();
        let alone = gate(&*ev, k.0, &x);
        let d = cdigest(&alone);
        for (d2, _) in outs {
            ctx::check(*d2 == d, "schedule-dependent", || format!("{} {:?}: a concurrent call returned a different ciphertext than the call alone", GATES[k.0], k.1));
        }
        let (m, e) = nearest(phase(&alone, &s, q), q, 4);
        let want = plain(k.0, bits[k.1[0]], bits[k.1[1]], bits[k.1[2]]) as u64;
        ctx::check(m == want && e * 16 < q, "wrong-value", || format!("{} {:?}: value {m} noise {e} of {q}, expected {want}", GATES[k.0], k.1));
        ctx::event("alone", &[k.0 as u64, d]);
    }
    ctx::count("distinct concurrent calls", results.len() as u64);
    if results.len() > 1 {
        ctx::nontrivial();
    }
}
fn exec_p02(c: &Case) {
    let _ = rayon::ThreadPoolBuilder::new().num_threads(c.get("pool").clamp(1, 20) as usize).build_global();
    match set_of(c) {
        None => {}
        Some(Set::Shipped(custom)) => {
            let p = if custom { *zkfhe::bfhe::CUSTOM_TERNARY_128_BITS_PARAMETERS } else { *zkfhe::bfhe::DEFAULT_TERNARY_128_BITS_PARAMETERS };
            concurrent::<u16, DefaultFieldU32>(c, p)
        }
        Some(Set::Toy(p)) => with_cq!(p.pair, C, Q => concurrent::<C, Q>(c, p.params::<C, Q>())),
    }
}
fn gen_p02(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P02");
    let thorough = tier == "thorough";
    c.set("keyseed", r.below(1 << 40) as i64);
    c.set("bits", r.below(16) as i64);
    let usual = if r.chance(120) { 1 } else { r.range(2, 4) as u64 };
    let crowd = r.crowd(usual);
    let mut long = r.chance(12);
    c.set("threads", crowd);
    c.set("pool", if r.chance(15) { 9 + r.below(8) } else { 1 + r.below(4) } as i64);
    c.set("pool2", if r.chance(15) { 9 + r.below(8) } else { 1 + r.below(3) } as i64);
    if thorough && i % 50 == 0 {
        c.set("shipped", 1 + r.below(2) as i64);
    } else {
        gen_params(r, &mut c, true, true);
        if crowd > 8 || long {
            c.set("logn", 4);
            c.set("n", r.range(2, 6));
            if !Pg::load(&c).gates_ok() {
                c.set("threads", usual as i64);
                long = false;
            }
        }
    }
    c.sched = gen_sched(r, 22, true);
    let nt = c.get("threads") as u64;
    let n = nt + r.below(if thorough { 10 } else { 6 });
    // few distinct calls, so that the same call runs in several places
    c.set("twins", if r.chance(400) { 1 + r.below(4) as i64 } else { 0 });
    let mut hot: Vec<[i64; 4]> = (0..3).map(|_| [if r.chance(400) { 8 } else { r.below(9) as i64 }, r.below(4) as i64, r.below(4) as i64, r.below(4) as i64]).collect();
    if c.get("twins") > 0 {
        // the same call once with a ciphertext and once with its relative
        hot[1] = hot[0];
        let at = 1 + r.below(if hot[0][0] == 0 { 1 } else if hot[0][0] < 7 { 2 } else { 3 }) as usize;
        (hot[0][at], hot[1][at]) = (0, 3);
    }
    for j in 0..n {
        let t = if j < nt { j as i64 } else { r.below(nt) as i64 };
        let k = *r.pick(&hot);
        let kind = *r.pick(&["call", "call", "call", "pooled", "nested", "panic", "badcall", "badboot", "clone", "table"]);
        let x = r.below(3) as i64;
        c.op(kind, &[t, k[0], k[1], k[2], k[3], x, r.below(1 << 40) as i64]);
    }
    if long {
        let k = *r.pick(&hot);
        c.op("call", &[r.below(nt) as i64, k[0], k[1], k[2], k[3], 0, 0, *r.pick(&[300, 600, 1100])]);
    }
    c
}

pub static P01: PropDef = PropDef {
    id: "P01",
    neighbour: true,
    gen: gen_p01,
    exec: exec_p01,
    outer: None,
    runs_quick: 900,
    runs_thorough: 20000,
    race: 0,
    rule: "a run is nontrivial when at least two gates were evaluated; distinct by history of every wire value, noise and delivery, and by schedule",
    real: &["zkfhe (KeyGen, Encryptor, Decryptor, Evaluator, all gates)", "fhe_core", "lattice", "algebra", "rayon (real scheduler code on simulated threads)"],
    stub: &[
        "network between client and evaluator (discrete-event model: loss, duplication, delay, reordering)",
        "evaluator process (crash loses everything but the key seed)",
        "caller's random generator (seeded)",
        "OS scheduler, futex, threads, clock, entropy (simulated)",
    ],
    assumptions: &["toy parameter sets are drawn so that the analytic noise estimate leaves 7.5 standard deviations; shipped parameter sets are run as they are"],
};
pub static P02: PropDef = PropDef {
    id: "P02",
    neighbour: true,
    gen: gen_p02,
    exec: exec_p02,
    outer: None,
    runs_quick: 3000,
    runs_thorough: 60000,
    race: 200,
    rule: "a run is nontrivial when two or more distinct calls were made (by one to four threads, each call also forking inside a pool); distinct by history and schedule",
    real: P01.real,
    stub: STUB_OS,
    assumptions: &["executions are sequentially consistent; data races are judged by happens-before"],
};
