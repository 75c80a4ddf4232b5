//! P09: field elements kept on a faulty simulated disk.
use super::PropDef;
use crate::case::{gen_sched, Case, Op};
use crate::ctx;
use crate::fields::*;
use crate::rg::{mix64, Rg};
use crate::with_field;
use bincode::Options;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::Serialize;
use std::collections::BTreeMap;
use std::hash::Hasher;
use std::io::Read;

const FORMATS: usize = 9;

/// A reader over the simulated device: short reads, interruptions, and an I/O error at a chosen byte.
struct Dev<'a> {
    data: &'a [u8],
    pos: usize,
    r: Rg,
    short: bool,
    eio_at: usize,
}
impl Read for Dev<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.short && self.r.chance(200) {
            ctx::count("fault read interrupted", 1);
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.pos >= self.eio_at {
            ctx::count("fault device read error", 1);
            return Err(std::io::Error::other("EIO"));
        }
        let mut n = b.len().min(self.data.len() - self.pos).min(self.eio_at - self.pos);
        if self.short && n > 1 {
            let m = 1 + self.r.below(n as u64) as usize;
            if m < n {
                ctx::count("fault short read", 1);
            }
            n = m;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

fn encode<T: Serialize>(f: usize, v: &T) -> Option<Vec<u8>> {
    match f {
        0 => bincode::serialize(v).ok(),
        1 => bincode::DefaultOptions::new().with_big_endian().with_varint_encoding().serialize(v).ok(),
        2 | 3 => serde_json::to_vec(v).ok(),
        4 => serde_json::to_vec_pretty(v).ok(),
        5 => {
            let mut o = vec![];
            ciborium::into_writer(v, &mut o).ok()?;
            Some(o)
        }
        6 => bincode::serialize(v).ok(),
        7 => serde_json::to_value(v).ok().map(|v| v.to_string().into_bytes()),
        _ => bincode::DefaultOptions::new().with_fixint_encoding().serialize(v).ok(),
    }
}
fn decode<T: DeserializeOwned>(f: usize, b: &[u8], io: Option<(u64, usize)>) -> Result<T, String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    let dev = |seed: u64, eio: usize| Dev { data: b, pos: 0, r: Rg::new(seed), short: seed & 1 == 0, eio_at: eio };
    match (f, io) {
        (0 | 6, None) => bincode::deserialize(b).map_err(|x| e(&x)),
        (0 | 6, Some((s, x))) => bincode::options().with_fixint_encoding().with_limit(1 << 20).allow_trailing_bytes().deserialize_from(dev(s, x)).map_err(|x| e(&x)),
        (1, None) => bincode::DefaultOptions::new().with_big_endian().with_varint_encoding().with_limit(1 << 20).deserialize(b).map_err(|x| e(&x)),
        (1, Some((s, x))) => bincode::DefaultOptions::new().with_big_endian().with_varint_encoding().with_limit(1 << 20).deserialize_from(dev(s, x)).map_err(|x| e(&x)),
        (2 | 4, None) => serde_json::from_slice(b).map_err(|x| e(&x)),
        (2..=4, Some((s, x))) => serde_json::from_reader(dev(s, x)).map_err(|x| e(&x)),
        (3, None) => String::from_utf8(b.to_vec()).map_err(|x| e(&x)).and_then(|s| serde_json::from_str(&s).map_err(|x| e(&x))),
        (5, io) => {
            let (s, x) = io.unwrap_or((1, usize::MAX));
            ciborium::from_reader(dev(s, x)).map_err(|x| e(&x))
        }
        (7, _) => serde_json::from_slice::<serde_json::Value>(b).map_err(|x| e(&x)).and_then(|v| serde_json::from_value(v).map_err(|x| e(&x))),
        (_, None) => bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 20).deserialize(b).map_err(|x| e(&x)),
        (_, Some((s, x))) => bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 20).deserialize_from(dev(s, x)).map_err(|x| e(&x)),
    }
}

/// A decoded element is an ordinary element of value v.
fn ordinary<F: Fx>(e: F, v: u64, how: &str) -> bool {
    let q = F::q();
    let w = v % q;
    if !ctx::check(e.u() < q && e.u() == w, "not-reduced", || format!("{}: reading {v} by {how} gives {} (modulus {q})", F::NAME, e.u())) {
        return false;
    }
    let f = F::f(w);
    let h = |x: F| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    };
    let x = mix64(v) % q;
    let y = F::f(x);
    let ok = e == f
        && e.cmp(&f) == std::cmp::Ordering::Equal
        && h(e) == h(f)
        && (e + y).u() == addm(w, x, q)
        && (e - y).u() == subm(w, x, q)
        && (y - e).u() == subm(x, w, q)
        && (e * y).u() == mulm(w, x, q)
        && (-e).u() == negm(w, q)
        && (w == 0 || (y / e).u() == mulm(x, invm(w, q), q))
        && format!("{e}").contains(&w.to_string());
    ctx::check(ok, "not-ordinary", || format!("{}: the element read from {v} by {how} does not behave as {w}", F::NAME))
}
fn transforms<F: Fx>(v: &[F], how: &str) {
    if v.len() < 2 || !v.len().is_power_of_two() || v.len() > 64 || v.len().trailing_zeros() > max_log::<F>() {
        return;
    }
    let log = v.len().trailing_zeros();
    if let Some(Ok(t)) = ctx::must("table", || F::get_ntt_table(log)) {
        use algebra::transformation::AbstractNTT;
        let mut w = v.to_vec();
        let ok = ctx::must("transform", || {
            t.transform_slice(&mut w);
            let canon = w.iter().all(|x| x.u() < F::q());
            t.inverse_transform_slice(&mut w);
            canon && w == v
        });
        ctx::check(ok == Some(true), "not-ordinary", || format!("{}: transform of elements read by {how}", F::NAME));
    }
}

fn corrupt(o: &Op, good: &[u8], old: &[u8], f: usize) -> Vec<u8> {
    let mut r = Rg::new(o.arg(2) as u64);
    let mut b = good.to_vec();
    let json = matches!(f, 2 | 3 | 4 | 7);
    match o.k.as_str() {
        "flip" => {
            for _ in 0..1 + o.idx(1, 4) {
                if !b.is_empty() {
                    let i = r.below(b.len() as u64) as usize;
                    b[i] ^= 1 << r.below(8);
                }
            }
            ctx::count("fault bit flip", 1)
        }
        "trunc" => {
            let n = r.below(b.len() as u64 + 1) as usize;
            b.truncate(n);
            ctx::count("fault truncated file", 1)
        }
        "extend" => {
            for _ in 0..1 + r.below(12) {
                b.push(r.u64() as u8 & if r.chance(500) { 0xFF } else { 0 });
            }
            ctx::count("fault bytes appended", 1)
        }
        "torn" => {
            let sec = 1 << r.below(6);
            for (i, c) in b.chunks_mut(sec).enumerate() {
                if r.chance(500) {
                    for (j, x) in c.iter_mut().enumerate() {
                        *x = *old.get(i * sec + j).unwrap_or(&0);
                    }
                }
            }
            ctx::count("fault torn write", 1)
        }
        "lost" => {
            b = old.to_vec();
            ctx::count("fault lost write", 1)
        }
        "stuck" => {
            // a sector of all ones or zeros
            if !b.is_empty() {
                let i = r.below(b.len() as u64) as usize;
                let n = (1 + r.below(16) as usize).min(b.len() - i);
                let v = if json { *r.pick(b"9876543210-.e") } else { *r.pick(&[0u8, 0xFF, 0x7F, 0x80]) };
                b[i..i + n].fill(v);
            }
            ctx::count("fault stuck sector", 1)
        }
        "swap" => {
            let n = b.len();
            if n > 3 {
                let l = 1 + r.below(n as u64 / 2) as usize;
                let (i, j) = (r.below((n - l) as u64) as usize, r.below((n - l) as u64) as usize);
                let t = b[i..i + l].to_vec();
                b.copy_within(j..j + l, i);
                b[j..j + l].copy_from_slice(&t);
            }
            ctx::count("fault misplaced sectors", 1)
        }
        "digit" => {
            // a plausible, hand-edited number
            if json {
                if let Some(i) = (0..b.len()).map(|_| r.below(b.len() as u64) as usize).find(|&i| b[i].is_ascii_digit()) {
                    if r.chance(500) { b[i] = b'9' } else { b.insert(i, b'1' + r.below(9) as u8) }
                }
            } else if b.len() > 8 {
                let i = 8 + r.below(b.len() as u64 - 8) as usize;
                b[i] = 0xFF;
            }
            ctx::count("fault edited number", 1)
        }
        _ => {}
    }
    b
}

/// Reads into a value that exists already, as containers do.
fn decode_into<T: DeserializeOwned>(f: usize, b: &[u8], place: &mut T) -> Result<(), String> {
    let e = |x: &dyn std::fmt::Display| x.to_string();
    match f {
        1 => T::deserialize_in_place(&mut bincode::de::Deserializer::from_slice(b, bincode::DefaultOptions::new().with_big_endian().with_varint_encoding().with_limit(1 << 20)), place).map_err(|x| e(&x)),
        2..=4 => T::deserialize_in_place(&mut serde_json::Deserializer::from_slice(b), place).map_err(|x| e(&x)),
        // ciborium keeps its deserialiser to itself
        5 => decode(5, b, None).map(|v| *place = v),
        7 => serde_json::from_slice::<serde_json::Value>(b).and_then(|v| T::deserialize_in_place(v, place)).map_err(|x| e(&x)),
        _ => T::deserialize_in_place(&mut bincode::de::Deserializer::from_slice(b, bincode::DefaultOptions::new().with_fixint_encoding().with_limit(1 << 20)), place).map_err(|x| e(&x)),
    }
}

fn verdicts<F: Fx>(f: usize, b: &[u8], io: Option<(u64, usize)>, how: &str, must: Option<&[u64]>)
where
    F::Value: DeserializeOwned + Into<u64>,
{
    let raw: Result<Vec<F::Value>, String> = decode(f, b, io);
    let got: Result<Vec<F>, String> = match ctx::must("decode", || decode::<Vec<F>>(f, b, io)) {
        Some(g) => g,
        None => return,
    };
    ctx::event("decoded", &[f as u64, b.len() as u64, raw.is_ok() as u64, got.is_ok() as u64]);
    match (&raw, &got) {
        (Ok(raw), Ok(got)) => {
            ctx::count("corrupted or clean sequences accepted", 1);
            ctx::check(raw.len() == got.len(), "wrong-length", || format!("{} numbers read as {} elements", raw.len(), got.len()));
            for (r, g) in raw.iter().zip(got) {
                if !ordinary(*g, (*r).into(), how) {
                    return;
                }
            }
            transforms(got, how);
            if let Some(m) = must {
                ctx::check(us(got) == m, "not-roundtrip", || format!("{}: format {f}: {m:?} reads back as {:?}", F::NAME, us(got)));
            }
        }
        (Err(_), Ok(got)) => ctx::fail("invented", format!("{}: format {f}: bytes that hold no sequence of integers read as {:?}", F::NAME, us(got))),
        (_, Err(e)) => {
            ctx::count("corrupted sequences refused", 1);
            if must.is_some() {
                ctx::fail("not-roundtrip", format!("{}: format {f}: well-formed data refused: {e}", F::NAME));
            }
        }
    }
    if io.is_some() || ctx::failed() {
        return;
    }
    // the same bytes read over a sequence that exists already
    let n = (b.len() as u64 * 7 + f as u64) % 12;
    let mut raw: Vec<F::Value> = (0..n).map(|_| F::ZERO.value()).collect();
    let mut got: Vec<F> = (0..n).map(F::f).collect();
    let x = decode_into(f, b, &mut raw);
    let y = match ctx::must("decode in place", || decode_into(f, b, &mut got)) {
        Some(y) => y,
        None => return,
    };
    ctx::event("decoded in place", &[x.is_ok() as u64, y.is_ok() as u64]);
    match (x, y) {
        (Ok(()), Ok(())) => {
            ctx::check(raw.len() == got.len(), "wrong-length", || format!("{} numbers read in place as {} elements", raw.len(), got.len()));
            for (r, g) in raw.iter().zip(&got) {
                if !ordinary(*g, (*r).into(), "reading in place") {
                    return;
                }
            }
        }
        (Err(_), Ok(())) => ctx::fail("invented", format!("{}: format {f}: bytes that hold no sequence of integers read in place as {:?}", F::NAME, us(&got))),
        (_, Err(e)) => {
            if must.is_some() {
                ctx::fail("not-roundtrip", format!("{}: format {f}: well-formed data refused in place: {e}", F::NAME));
            }
            // whatever was overwritten before the error is still an element
            for g in &got {
                ctx::check(g.u() < F::q(), "not-reduced", || format!("{}: a read in place that fails leaves {} (modulus {})", F::NAME, g.u(), F::q()));
            }
        }
    }
}

/// single values through the plain deserialisers, arrays, tuples, options and maps
fn singles<F: Fx>(seed: i64)
where
    F::Value: DeserializeOwned + Into<u64>,
{
    let mut r = Rg::new(seed as u64);
    let q = F::q();
    for _ in 0..6 {
        let v: u64 = match r.below(8) {
            0 => q,
            1 => q - 1,
            2 => q + 1 + r.below(3),
            3 => 2 * q - r.below(3),
            4 => u64::MAX >> r.below(64),
            5 => 2 * q + r.below(q),
            _ => r.u64() >> r.below(64),
        };
        type E = serde::de::value::Error;
        macro_rules! one {
            ($d:expr, $how:literal) => {{
                let raw = <F::Value as serde::Deserialize>::deserialize($d);
                let got = ctx::must("deserialize", || <F as serde::Deserialize>::deserialize($d));
                match (&raw, got) {
                    (Ok(x), Some(Ok(g))) => {
                        ordinary::<F>(g, (*x).into(), $how);
                    }
                    (Err(_), Some(Ok(g))) => ctx::fail("invented", format!("{}: {} {v} reads as {}", F::NAME, $how, g.u())),
                    _ => {}
                }
                // into an element that exists already
                let mut place = F::f(r.u64());
                let done = ctx::must("deserialize_in_place", || <F as serde::Deserialize>::deserialize_in_place($d, &mut place));
                match (&raw, done) {
                    (Ok(x), Some(Ok(()))) => {
                        ordinary::<F>(place, (*x).into(), concat!($how, " in place"));
                    }
                    (Err(_), Some(Ok(()))) => ctx::fail("invented", format!("{}: {} {v} read in place gives {}", F::NAME, $how, place.u())),
                    _ => {
                        ctx::check(place.u() < q, "not-reduced", || format!("{}: a refused read leaves {}", F::NAME, place.u()));
                    }
                }
            }};
        }
        one!(IntoDeserializer::<E>::into_deserializer(v), "u64");
        one!(IntoDeserializer::<E>::into_deserializer(v as u32), "u32");
        one!(IntoDeserializer::<E>::into_deserializer(v as u16), "u16");
        one!(IntoDeserializer::<E>::into_deserializer(v as u8), "u8");
        one!(IntoDeserializer::<E>::into_deserializer(v as i64), "i64");
        one!(IntoDeserializer::<E>::into_deserializer(v as i8), "i8");
        one!(IntoDeserializer::<E>::into_deserializer(v as f64), "f64");
        one!(IntoDeserializer::<E>::into_deserializer("12"), "string");
        let s = v.to_string();
        for t in [s.clone(), format!("-{s}"), format!("{s}.0"), format!("{s}e0"), format!("\"{s}\""), format!("[{s}]"), "null".into(), "true".into()] {
            let raw = serde_json::from_str::<F::Value>(&t);
            let got = serde_json::from_str::<F>(&t);
            match (raw, got) {
                (Ok(x), Ok(g)) => {
                    ordinary::<F>(g, x.into(), "JSON text");
                }
                (Err(_), Ok(g)) => ctx::fail("invented", format!("{}: JSON {t} reads as {}", F::NAME, g.u())),
                _ => {}
            }
        }
        let raw = serde_json::from_str::<(F::Value, [F::Value; 2], Option<F::Value>)>(&format!("[{s},[{s},{s}],{s}]"));
        let got = serde_json::from_str::<(F, [F; 2], Option<F>)>(&format!("[{s},[{s},{s}],{s}]"));
        if let (Ok(x), Ok(g)) = (&raw, &got) {
            ordinary::<F>(g.0, x.0.into(), "tuple");
            ordinary::<F>(g.1[1], x.1[1].into(), "array");
            ordinary::<F>(g.2.unwrap(), x.2.unwrap().into(), "option");
        }
        // round trip of a single element
        let e = F::f(v);
        for f in 0..FORMATS {
            let b = encode(f, &e);
            let d = b.as_ref().map(|b| decode::<F>(f, b, None));
            ctx::check(matches!(&d, Some(Ok(x)) if *x == e), "not-roundtrip", || format!("{}: element {} format {f}", F::NAME, e.u()));
            // an element and its integer are stored alike
            let m: BTreeMap<String, F> = [("k".to_string(), e)].into();
            let d = encode(f, &m).map(|b| decode::<BTreeMap<String, F>>(f, &b, None));
            ctx::check(matches!(&d, Some(Ok(x)) if *x == m), "not-roundtrip", || format!("{}: map of {} format {f}", F::NAME, e.u()));
        }
        ctx::event("single", &[v]);
    }
}

fn run<F: Fx>(c: &Case)
where
    F::Value: DeserializeOwned + Into<u64>,
{
    let mut r = Rg::new(c.get("data") as u64);
    let q = F::q();
    let f = c.get("format").rem_euclid(FORMATS as i64) as usize;
    let len = c.get("len").clamp(0, 64) as usize;
    let make = |r: &mut Rg, n: usize| -> Vec<F> { if n == 0 { vec![] } else { edge_vec(r, n, q).into_iter().map(F::f).collect() } };
    let mut now = make(&mut r, len);
    let mut disk = encode(f, &now).unwrap_or_default();
    let mut old = disk.clone();
    for o in &c.ops {
        if ctx::failed() {
            return;
        }
        match o.k.as_str() {
            "write" => {
                old = disk;
                now = make(&mut r, o.idx(1, 65));
                disk = match ctx::must("encode", || encode(f, &now)) {
                    Some(Some(b)) => b,
                    _ => {
                        ctx::fail("not-roundtrip", format!("{}: format {f} cannot encode", F::NAME));
                        return;
                    }
                };
            }
            "read" => {
                let io = if o.arg(1) & 1 == 0 { None } else { Some((o.arg(2) as u64 & !1, usize::MAX)) };
                verdicts::<F>(f, &disk, io, "a clean read", Some(&us(&now)));
            }
            "eio" => {
                let at = o.idx(1, disk.len() + 1);
                verdicts::<F>(f, &disk, Some((o.arg(2) as u64, at)), "a failing read", None);
            }
            "single" => singles::<F>(o.arg(2)),
            _ => {
                let b = corrupt(o, &disk, &old, f);
                let io = if o.arg(3) & 1 == 0 { None } else { Some((o.arg(2) as u64, usize::MAX)) };
                verdicts::<F>(f, &b, io, &format!("format {f} after {}", o.k), None);
            }
        }
    }
    if c.ops.len() > 1 {
        ctx::nontrivial();
    }
}
fn exec_p09(c: &Case) {
    with_field!(c.get("field"), F => run::<F>(c))
}
fn gen_p09(r: &mut Rg, _i: u64, tier: &str) -> Case {
    let mut c = Case::new("P09");
    c.set("field", r.below(12) as i64).set("format", r.below(FORMATS as u64) as i64);
    c.set("data", r.below(1 << 40) as i64).set("len", if r.chance(500) { 1 << r.below(6) } else { r.below(40) as i64 });
    c.sched = gen_sched(r, 10, false);
    for _ in 0..4 + r.below(if tier == "thorough" { 60 } else { 24 }) {
        let k = *r.pick(&["write", "read", "eio", "single", "flip", "flip", "flip", "trunc", "extend", "torn", "lost", "stuck", "stuck", "swap", "digit", "digit"]);
        let a = [0, r.below(1 << 20) as i64, r.below(1 << 40) as i64, r.below(2) as i64];
        c.op(k, &a);
    }
    c
}

pub static P09: PropDef = PropDef {
    id: "P09",
    neighbour: true,
    gen: gen_p09,
    exec: exec_p09,
    outer: None,
    runs_quick: 40000,
    runs_thorough: 600000,
    race: 2000,
    rule: "a run is nontrivial when it performs two or more storage operations; distinct by history of accepted and refused decodings",
    real: &["derived Serialize/Deserialize and arithmetic of the field types", "serde, bincode, serde_json, ciborium"],
    stub: &["storage device (bit flips, truncation, torn, lost and misplaced writes, stuck sectors, short and interrupted reads, read errors)"],
    assumptions: &["the integer the same bytes decode to with the same format defines what was read"],
};
