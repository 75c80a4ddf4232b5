//! A case is everything one simulated execution depends on besides the code.
use crate::rg::Rg;
use crate::rt::Sched;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub k: String,
    pub a: Vec<i64>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub cfg: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    pub sched: Sched,
    /// (thread, next, position) when strategy == 5
    #[serde(default)]
    pub explicit: Vec<(u32, u32, u64)>,
}
impl Case {
    pub fn new(prop: &str) -> Self {
        Case { prop: prop.into(), cfg: BTreeMap::new(), ops: vec![], sched: Sched::default(), explicit: vec![] }
    }
    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.cfg.insert(k.into(), v);
        self
    }
    pub fn get(&self, k: &str) -> i64 {
        *self.cfg.get(k).unwrap_or(&0)
    }
    pub fn op(&mut self, k: &str, a: &[i64]) {
        self.ops.push(Op { k: k.into(), a: a.to_vec() })
    }
}
impl Op {
    pub fn arg(&self, i: usize) -> i64 {
        *self.a.get(i).unwrap_or(&0)
    }
    /// argument i as an index below n
    pub fn idx(&self, i: usize, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            self.arg(i).rem_euclid(n as i64) as usize
        }
    }
}
/// A schedule for a program with several threads whose length is roughly 2^bits edges.
pub fn gen_sched(r: &mut Rg, bits: u32, threads: bool) -> Sched {
    let mut s = Sched { sched_seed: r.u64(), entropy_seed: r.u64(), ..Default::default() };
    if threads {
        match r.below(10) {
            0..=3 => {
                s.strategy = 0;
                s.param = r.logu(bits.min(20)) as u32;
            }
            4..=6 => {
                s.strategy = 1;
                let n = 1 + r.below(12);
                let span = (r.logu(bits) >> 6).min((1 << 24) - 1);
                s.param = (n | (span << 8)) as u32;
            }
            7..=8 => {
                s.strategy = 3;
                s.param = r.logu(8).max(4) as u32;
            }
            _ => {
                s.strategy = 4;
                s.param = r.logu(16) as u32;
            }
        }
        if r.chance(400) {
            s.spurious_pm = r.below(400) as u32;
        }
    }
    if r.chance(300) {
        s.eintr_pm = r.below(500) as u32;
    }
    if r.chance(300) {
        s.short_pm = r.below(700) as u32;
    }
    if r.chance(200) {
        s.clock_jump_pm = r.below(500) as u32;
    }
    s
}
