//! P06: generators shared out over threads, cloned, and read in every possible way.
use super::{PropDef, STUB_OS};
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::rg::Rg;
use crate::rt;
use algebra::utils::{Aes, Block, Prg};
use rand::{Rng, RngCore, SeedableRng};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ AES-128, straight from the standard
fn xtime(a: u8) -> u8 {
    (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 }
}
// p runs through the powers of 3, q through their inverses
const SBOX: [u8; 256] = {
    let mut t = [0u8; 256];
    let (mut p, mut q) = (1u8, 1u8);
    loop {
        p = p ^ (p << 1) ^ if p & 0x80 != 0 { 0x1b } else { 0 };
        q ^= q << 1;
        q ^= q << 2;
        q ^= q << 4;
        if q & 0x80 != 0 {
            q ^= 9;
        }
        t[p as usize] = q ^ q.rotate_left(1) ^ q.rotate_left(2) ^ q.rotate_left(3) ^ q.rotate_left(4) ^ 0x63;
        if p == 1 {
            break;
        }
    }
    t[0] = 0x63;
    t
};
pub struct RefAes {
    k: [[u8; 16]; 11],
}
impl RefAes {
    pub fn new(key: [u8; 16]) -> Self {
        let s = &SBOX;
        let mut w = [[0u8; 4]; 44];
        for i in 0..4 {
            w[i].copy_from_slice(&key[4 * i..4 * i + 4]);
        }
        let mut rcon = 1u8;
        for i in 4..44 {
            let mut t = w[i - 1];
            if i % 4 == 0 {
                t = [s[t[1] as usize] ^ rcon, s[t[2] as usize], s[t[3] as usize], s[t[0] as usize]];
                rcon = xtime(rcon);
            }
            for j in 0..4 {
                w[i][j] = w[i - 4][j] ^ t[j];
            }
        }
        let mut k = [[0u8; 16]; 11];
        for r in 0..11 {
            for c in 0..4 {
                k[r][4 * c..4 * c + 4].copy_from_slice(&w[4 * r + c]);
            }
        }
        RefAes { k }
    }
    pub fn enc(&self, mut b: [u8; 16]) -> [u8; 16] {
        let x = |b: &mut [u8; 16], k: &[u8; 16]| b.iter_mut().zip(k).for_each(|(p, q)| *p ^= q);
        x(&mut b, &self.k[0]);
        for r in 1..11 {
            let mut t = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    t[4 * c + i] = SBOX[b[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r < 11 - 1 {
                for c in 0..4 {
                    let a = [t[4 * c], t[4 * c + 1], t[4 * c + 2], t[4 * c + 3]];
                    for i in 0..4 {
                        t[4 * c + i] = xtime(a[i]) ^ xtime(a[(i + 1) % 4]) ^ a[(i + 1) % 4] ^ a[(i + 2) % 4] ^ a[(i + 3) % 4];
                    }
                }
            }
            x(&mut t, &self.k[r]);
            b = t;
        }
        b
    }
}

/// The reference stream: word i of AES-128 in counter mode.
#[derive(Clone)]
struct Model {
    aes: Arc<RefAes>,
    pos: u64,
    block: u64,
    words: [u32; 4],
}
impl Model {
    fn new(key: [u8; 16]) -> Self {
        Model { aes: Arc::new(RefAes::new(key)), pos: 0, block: u64::MAX, words: [0; 4] }
    }
    fn w(&mut self) -> u32 {
        let b = self.pos / 4;
        if b != self.block {
            let mut x = [0u8; 16];
            x[..8].copy_from_slice(&b.to_le_bytes());
            let y = self.aes.enc(x);
            for i in 0..4 {
                self.words[i] = u32::from_le_bytes(y[4 * i..4 * i + 4].try_into().unwrap());
            }
            self.block = b;
        }
        let v = self.words[(self.pos % 4) as usize];
        self.pos += 1;
        v
    }
    fn w64(&mut self) -> u64 {
        let lo = self.w() as u64;
        lo | (self.w() as u64) << 32
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![];
        while v.len() < n {
            v.extend(self.w().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

struct Gen {
    prg: Prg,
    model: Model,
}

fn same(what: &str, g: u64, pos: u64, got: &[u8], want: &[u8]) {
    if let Some(i) = got.iter().zip(want).position(|(a, b)| a != b) {
        ctx::fail("wrong-stream", format!("{what} of {} bytes at word {pos} (generator {g}): byte {i} is {} instead of {}", got.len(), got[i], want[i]));
    }
    if !got.is_empty() {
        ctx::event(what, &[g, pos, got.len() as u64, got[0] as u64, *got.last().unwrap() as u64]);
    }
}

fn read(g: &mut Gen, id: u64, o: &Op) {
    let pos = g.model.pos;
    let n = o.arg(3).rem_euclid(700) as usize;
    // the model is not part of the simulated program
    macro_rules! m {
        ($e:expr) => {{ let _q = rt::quiet(); $e }};
    }
    match o.idx(2, 16) {
        0 => { let v = g.prg.next_u32(); let w = m!(g.model.w()); same("u32", id, pos, &v.to_le_bytes(), &w.to_le_bytes()) }
        1 => { let v = g.prg.next_u64(); let w = m!(g.model.w64()); same("u64", id, pos, &v.to_le_bytes(), &w.to_le_bytes()) }
        2 => { let v = g.prg.random_bool(); let w = m!((g.model.w() as i32) < 0); same("bool", id, pos, &[v as u8], &[w as u8]) }
        3 => { let v = g.prg.random_byte(); let w = m!(g.model.w() as u8); same("byte", id, pos, &[v], &[w]) }
        4 => { let v: [u8; 16] = g.prg.random_block().into(); let w = m!(g.model.bytes(16)); same("block", id, pos, &v, &w) }
        5 => {
            let mut v = vec![0xA5u8; n];
            g.prg.random_bytes(&mut v);
            let w = m!(g.model.bytes(n));
            same("bytes", id, pos, &v, &w)
        }
        6 => {
            let mut v = vec![Block::ZERO; n % 40];
            g.prg.random_blocks(&mut v);
            let v: Vec<u8> = v.into_iter().flat_map(<[u8; 16]>::from).collect();
            let w = m!(g.model.bytes(v.len()));
            same("blocks", id, pos, &v, &w)
        }
        7 => {
            let mut v = vec![true; n % 100];
            g.prg.random_bools(&mut v);
            let w: Vec<u8> = m!((0..v.len()).map(|_| ((g.model.w() as i32) < 0) as u8).collect());
            same("bools", id, pos, &v.iter().map(|&b| b as u8).collect::<Vec<_>>(), &w)
        }
        8 => {
            let mut v = vec![0x5Au8; n];
            let r = g.prg.try_fill_bytes(&mut v);
            ctx::check(r.is_ok(), "fill-failed", || "try_fill_bytes".into());
            let w = m!(g.model.bytes(n));
            same("try_fill", id, pos, &v, &w)
        }
        9 => {
            let v: u128 = g.prg.gen();
            let w = m!(g.model.w64() as u128 | (g.model.w64() as u128) << 64);
            same("u128", id, pos, &v.to_le_bytes(), &w.to_le_bytes())
        }
        10 => {
            let mut v = vec![0u64; n % 60];
            g.prg.fill(&mut v[..]);
            let v: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
            let w = m!(g.model.bytes(v.len()));
            same("fill u64", id, pos, &v, &w)
        }
        11 => {
            // a long read, compared at both ends and at one point between
            let k = (1 + n * 16) << if n % 8 == 0 { (n / 8) % 10 } else { 0 };
            let mut v = vec![0u8; k];
            g.prg.fill_bytes(&mut v);
            let p0 = g.model.pos;
            let mid = (k / 2) & !3;
            for at in [0, mid, (k - 1) & !3] {
                let l = (k - at).min(160);
                g.model.pos = p0 + at as u64 / 4;
                let w = m!(g.model.bytes(l));
                same("long", id, p0 + at as u64 / 4, &v[at..at + l], &w);
            }
            g.model.pos = p0 + (k as u64).div_ceil(4);
        }
        12 => {
            for _ in 0..n % 34 {
                let p = g.model.pos;
                let v = g.prg.next_u32();
                let w = m!(g.model.w());
                same("u32s", id, p, &v.to_le_bytes(), &w.to_le_bytes());
            }
        }
        13 => {
            let mut v = [];
            g.prg.fill_bytes(&mut v);
        }
        14 => {
            let v: u16 = g.prg.gen();
            let w = m!(g.model.w() as u16);
            same("u16", id, pos, &v.to_le_bytes(), &w.to_le_bytes())
        }
        _ => {
            let v: [u8; 7] = g.prg.gen();
            let w: Vec<u8> = m!((0..7).map(|_| g.model.w() as u8).collect());
            same("u8x7", id, pos, &v, &w)
        }
    }
}

fn key_of(k: i64) -> [u8; 16] {
    let mut r = Rg::new(k as u64 / 8);
    let mut v = [0u8; 16];
    match k & 7 {
        0 => {}
        1 => v = [0xFF; 16],
        2 => v[r.below(16) as usize] = 1 << r.below(8),
        _ => {
            v[..8].copy_from_slice(&r.u64().to_le_bytes());
            v[8..].copy_from_slice(&r.u64().to_le_bytes());
        }
    }
    v
}

fn exec_p06(c: &Case) {
    let nt = c.get("threads").clamp(1, 40) as usize;
    let ns = c.get("slots").clamp(1, 40) as usize;
    let slots: Arc<Vec<Mutex<Option<Gen>>>> = Arc::new((0..ns).map(|_| Mutex::new(None)).collect());
    let firsts: Arc<Mutex<Vec<[u8; 32]>>> = Default::default();
    let body = {
        let (c, slots, firsts) = (c.clone(), slots.clone(), firsts.clone());
        Arc::new(move |me: usize| {
            for o in &c.ops {
                if o.idx(0, nt) != me || ctx::failed() {
                    continue;
                }
                let s = o.idx(1, ns);
                match o.k.as_str() {
                    "seed" => {
                        let k = key_of(o.arg(2));
                        let g = Gen { prg: Prg::from_seed(Block::from(k)), model: { let _q = rt::quiet(); Model::new(k) } };
                        *slots[s].lock().unwrap() = Some(g);
                    }
                    "system" => {
                        // keyed from system entropy: all different
                        let mut p = match ctx::must("Prg::new", || if o.arg(2) & 1 == 0 { Prg::new() } else { Prg::default() }) {
                            Some(p) => p,
                            None => return,
                        };
                        let mut v = [0u8; 32];
                        p.fill_bytes(&mut v);
                        ctx::event("system", &[v[0] as u64, v[31] as u64]);
                        let _q = rt::quiet();
                        let mut f = firsts.lock().unwrap();
                        ctx::check(!f.contains(&v), "same-stream", || "two generators created without a seed give the same stream".into());
                        ctx::check(v[..16] != [0; 16], "same-stream", || "unseeded generator yields zeros".into());
                        f.push(v);
                    }
                    "clone" => {
                        let d = o.idx(2, ns);
                        let g = slots[s].lock().unwrap().as_ref().map(|g| Gen { prg: g.prg.clone(), model: g.model.clone() });
                        if let (Some(g), true) = (g, d != s) {
                            ctx::count("clones", 1);
                            *slots[d].lock().unwrap() = Some(g);
                        }
                    }
                    "take" => {
                        // read it without the lock held, on this thread
                        let g = slots[s].lock().unwrap().take();
                        if let Some(mut g) = g {
                            for j in 0..1 + o.idx(4, 4) {
                                let oo = Op { k: "read".into(), a: vec![0, 0, o.arg(2) + j as i64 * 3, o.arg(3) + j as i64 * 37] };
                                read(&mut g, s as u64, &oo);
                            }
                            *slots[s].lock().unwrap() = Some(g);
                        }
                    }
                    "aes" => {
                        // the cipher by itself, one block, arrays and slices
                        let k = key_of(o.arg(2));
                        let (a, m) = (Aes::new(Block::from(k)), { let _q = rt::quiet(); RefAes::new(k) });
                        let mut r = Rg::new(o.arg(3) as u64);
                        let v: Vec<[u8; 16]> = (0..r.below(30)).map(|_| key_of(r.u64() as i64)).collect();
                        let w: Vec<u8> = { let _q = rt::quiet(); v.iter().flat_map(|b| m.enc(*b)).collect() };
                        let mut b: Vec<Block> = v.iter().map(|x| Block::from(*x)).collect();
                        let one: Vec<u8> = b.iter().flat_map(|x| <[u8; 16]>::from(a.encrypt_block(*x))).collect();
                        same("encrypt_block", 0, 0, &one, &w);
                        if b.len() >= 5 {
                            let y: Vec<u8> = a.encrypt_many_blocks([b[0], b[1], b[2], b[3], b[4]]).into_iter().flat_map(<[u8; 16]>::from).collect();
                            same("encrypt_many_blocks", 0, 0, &y, &w);
                        }
                        a.encrypt_block_slice(&mut b);
                        let y: Vec<u8> = b.into_iter().flat_map(<[u8; 16]>::from).collect();
                        same("encrypt_block_slice", 0, 0, &y, &w);
                    }
                    "far" => {
                        // past 2^32 blocks; compared now and then
                        let k = key_of(o.arg(2));
                        let mut g = Gen { prg: Prg::from_seed(Block::from(k)), model: { let _q = rt::quiet(); Model::new(k) } };
                        let mut v = vec![0u8; 1 << 20];
                        let step = (v.len() / 4) as u64;
                        let end = (4u64 << o.arg(3).clamp(1, 33)) + 3 * step;
                        while g.model.pos < end {
                            g.prg.fill_bytes(&mut v);
                            let p = g.model.pos;
                            if p & (p - step.min(p)) < step || p + 4 * step > end {
                                let w = { let _q = rt::quiet(); g.model.bytes(64) };
                                same("far", 0, p, &v[..64], &w);
                            }
                            g.model.pos = p + step;
                        }
                        ctx::max("furthest word read", g.model.pos);
                    }
                    "from_rng" => {
                        let mut v = [0u8; 16];
                        let k = key_of(o.arg(2));
                        let mut src = crate::fields::SimRng::new(o.arg(2) as u64);
                        src.clone().fill_bytes(&mut v);
                        if let Ok(prg) = Prg::from_rng(&mut src) {
                            let _ = k;
                            *slots[s].lock().unwrap() = Some(Gen { prg, model: Model::new(v) });
                        }
                    }
                    _ => {
                        if let Some(g) = slots[s].lock().unwrap().as_mut() {
                            read(g, s as u64, o);
                        }
                    }
                }
            }
        })
    };
    let mut hs = vec![];
    for t in 1..nt {
        let b = body.clone();
        hs.push(std::thread::spawn(move || b(t)));
    }
    body(0);
    for h in hs {
        ctx::check(h.join().is_ok(), "panic", || ctx::with(|c| format!("a thread panicked: {}", c.last_panic)));
    }
    for s in slots.iter() {
        if let Some(g) = s.lock().unwrap().as_mut() {
            ctx::max("furthest word read", g.model.pos);
            ctx::state(&[g.model.pos % 32, g.model.pos / 32 % 8]);
            let pos = g.model.pos;
            let v = g.prg.next_u64();
            let w = g.model.w64();
            same("last", 99, pos, &v.to_le_bytes(), &w.to_le_bytes());
        }
    }
    if c.ops.len() > 2 {
        ctx::nontrivial();
    }
}
fn gen_p06(r: &mut Rg, i: u64, tier: &str) -> Case {
    let mut c = Case::new("P06");
    if i == 0 || tier == "thorough" && i % 20000 == 0 {
        c.set("threads", 1).set("slots", 1);
        for (k, bits) in [(r.below(1 << 40) as i64, if tier != "thorough" { 28 } else if i == 0 { 32 } else { r.range(20, 30) })] {
            c.op("far", &[0, 0, k, bits]);
        }
        for s in 0..3 {
            c.op("seed", &[0, 0, s]);
        }
        c.sched.max_steps = 60_000_000_000;
        return c;
    }
    let usual = 1 + r.below(4);
    let nt = r.crowd(usual) as u64;
    let ns = if nt > 8 { nt } else { 1 + r.below(5) };
    c.set("threads", nt as i64).set("slots", ns as i64);
    c.sched = gen_sched(r, 16, true);
    for s in 0..ns {
        let k = r.below(1 << 40) as i64;
        c.op(if r.chance(900) { "seed" } else { "from_rng" }, &[0, s as i64, k]);
    }
    let n = 4 + r.below(if tier == "thorough" { 80 } else { 30 }) + if nt > 8 { 2 * nt } else { 0 } + if r.chance(5) { 600 } else { 0 };
    for _ in 0..n {
        let (t, s) = (r.below(nt) as i64, r.below(ns) as i64);
        match r.below(20) {
            0 => c.op("seed", &[t, s, r.below(1 << 40) as i64]),
            1 => c.op("from_rng", &[t, s, r.below(1 << 40) as i64]),
            2 | 3 => c.op("system", &[t, s, r.below(2) as i64]),
            4 => c.op("aes", &[t, s, r.below(1 << 40) as i64, r.below(1 << 40) as i64]),
            5 | 6 => c.op("clone", &[t, s, r.below(ns) as i64]),
            7..=9 => c.op("take", &[t, s, r.below(16) as i64, r.below(700) as i64, r.below(4) as i64]),
            _ => c.op("read", &[t, s, r.below(16) as i64, r.below(700) as i64]),
        }
    }
    c
}

pub static P06: PropDef = PropDef {
    id: "P06",
    neighbour: true,
    gen: gen_p06,
    exec: exec_p06,
    outer: None,
    runs_quick: 30000,
    runs_thorough: 600000,
    race: 0,
    rule: "a run is nontrivial when it makes more than two operations; distinct by history of every read (position, length, bytes) and by schedule",
    real: &["algebra::Prg, Aes, Block (AES-NI path)", "rand (BlockRng, ThreadRng)"],
    stub: STUB_OS,
    assumptions: &["the reference AES-128 and word-buffer model are written from the standards and share no code with the generator"],
};
