//! Orchestration: one forked child per simulated execution, search, minimisation, replay, evidence.
use crate::case::Case;
use crate::ctx;
use crate::props::{self, PropDef};
use crate::rg::{hash_str, mix64, Rg};
use crate::rt::{self, Stat};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct RunResult {
    pub class: Option<String>,
    pub msg: String,
    pub hist: u64,
    pub stat: Stat,
    pub counters: BTreeMap<String, u64>,
    pub nontrivial: bool,
    pub events: u64,
    pub samples: Vec<String>,
    #[serde(default)]
    pub states: BTreeSet<u64>,
    #[serde(default)]
    pub trace: Vec<String>,
    #[serde(default)]
    pub switches: Vec<(u32, u32, u64)>,
    #[serde(default)]
    pub inconclusive: bool,
    #[serde(default)]
    pub outs: BTreeMap<String, u64>,
}
impl RunResult {
    fn same_failure(&self, o: &RunResult) -> bool {
        self.class.is_some() && self.class == o.class
    }
}

static mut RESULT_FD: i32 = -1;
static mut WANT_DETAIL: bool = false;

fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            break;
        }
        b = &b[n as usize..];
    }
}

fn collect() -> RunResult {
    let stat = rt::stats();
    let c = ctx::take();
    let mut r = RunResult {
        class: c.fail.as_ref().map(|f| f.0.clone()),
        msg: c.fail.map(|f| f.1).unwrap_or_default(),
        hist: c.hash,
        stat,
        counters: c.counters,
        nontrivial: c.nontrivial,
        events: c.events,
        samples: c.samples,
        states: c.states,
        outs: c.outs,
        trace: c.trace,
        ..Default::default()
    };
    let o = rt::race_stats();
    for (k, v) in [("accesses checked for races", o[7]), ("atomic operations followed", o[8]), ("accesses to bytes another thread used", o[9])] {
        if v > 0 {
            r.counters.insert(k.into(), v);
        }
    }
    if unsafe { WANT_DETAIL } {
        r.switches = rt::switches();
        r.switches.truncate(200_000);
    }
    r
}

extern "C" fn fatal(kind: i32) {
    let race = rt::race();
    let (c, m) = match kind {
        1 => ("deadlock", "no thread can run and none has a deadline"),
        2 => ("no-progress", "step budget exceeded: the run does not complete"),
        3 => ("heap-write-after-free", "freed memory was written to"),
        4 => ("data-race", race.as_str()),
        _ => ("fatal", "runtime error"),
    };
    ctx::fail(c, m);
    let mut r = collect();
    // a fatal stop overrides anything recorded before
    r.class = Some(c.into());
    r.msg = m.into();
    emit(&r);
}

fn emit(r: &RunResult) -> ! {
    let s = serde_json::to_vec(r).unwrap();
    unsafe {
        write_all(RESULT_FD, &s);
        libc::_exit(0)
    }
}

/// Run `f` as the main thread of a simulated process and return what it recorded.  Once per process.
pub fn simulate(case: &Case, f: impl FnOnce() + Send + 'static) -> RunResult {
    ctx::init(unsafe { WANT_DETAIL });
    rt::start(&case.sched, &case.explicit, fatal);
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        if let Err(m) = ctx::guard(f) {
            ctx::fail("panic", format!("unexpected panic: {m}"));
        }
    });
    if let Ok(h) = h {
        let _ = h.join();
    }
    rt::stop();
    collect()
}

/// Fork a child that computes a RunResult; returns (pid, read end).
pub fn spawn_child(detail: bool, f: impl FnOnce() -> RunResult) -> (i32, i32) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            libc::close(fds[0]);
            RESULT_FD = fds[1];
            WANT_DETAIL = detail;
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &c);
            let nul = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            if nul >= 0 && std::env::var_os("SIM_STDERR").is_none() {
                libc::dup2(nul, 2);
            }
            let r = f();
            emit(&r);
        }
        libc::close(fds[1]);
        (pid, fds[0])
    }
}

/// Whether every run gets a program image of its own instead of a copy of the parent: what the parent
/// did before (which library caches it filled, where its memory lies) then has no say in the steps.
const FRESH: bool = rt::RACE;

/// In a forked child: become a new image of this program, at fixed addresses and with no environment,
/// that runs the case.
fn fresh_image(case: &Case, detail: bool) -> RunResult {
    let s = serde_json::to_vec(case).unwrap();
    unsafe {
        let m = libc::memfd_create(b"case\0".as_ptr() as *const _, 0);
        let (m2, r2) = (libc::dup2(m, 100), libc::dup2(RESULT_FD, 101));
        if m < 0 || m2 < 0 || r2 < 0 {
            return exec_case(case);
        }
        write_all(m2, &s);
        libc::lseek(m2, 0, libc::SEEK_SET);
        libc::personality(0x0040000);
        let arg = |s: &'static [u8]| s.as_ptr() as *const libc::c_char;
        let argv = [arg(b"sim\0"), arg(b"case\0"), arg(if detail { b"1\0" } else { b"0\0" }), std::ptr::null()];
        let envp = [std::ptr::null()];
        libc::execve(arg(b"/proc/self/exe\0"), argv.as_ptr(), envp.as_ptr());
    }
    exec_case(case)
}

/// The other end of `fresh_image`.
pub fn case_mode(detail: bool) -> ! {
    let mut s = vec![];
    let mut tmp = [0u8; 65536];
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        loop {
            let n = libc::read(100, tmp.as_mut_ptr() as *mut _, tmp.len());
            if n <= 0 {
                break;
            }
            s.extend_from_slice(&tmp[..n as usize]);
        }
        RESULT_FD = 101;
        WANT_DETAIL = detail;
    }
    let case: Case = serde_json::from_slice(&s).expect("case");
    emit(&exec_case(&case))
}

pub fn exec_case(case: &Case) -> RunResult {
    let def = props::find(&case.prop).expect("property");
    match def.outer {
        Some(o) => o(case),
        None => {
            let c = case.clone();
            let f = def.exec;
            simulate(case, move || with_neighbour(&c, f))
        }
    }
}

/// A deployment with similar parameters living in the same process: its case is stored under "nb." names.
fn with_neighbour(c: &Case, f: fn(&Case)) {
    let mut main = c.clone();
    let mut other = Case::new(&c.prop);
    other.sched = c.sched.clone();
    main.cfg.retain(|k, v| match k.strip_prefix("nb.") {
        Some(k) => {
            other.cfg.insert(k.into(), *v);
            false
        }
        None => true,
    });
    main.ops.retain(|o| match o.k.strip_prefix("nb.") {
        Some(k) => {
            other.ops.push(crate::case::Op { k: k.into(), a: o.a.clone() });
            false
        }
        None => true,
    });
    if other.ops.is_empty() {
        return f(&main);
    }
    ctx::count("runs with a second deployment in the process", 1);
    match other.cfg.remove("when").unwrap_or(0).rem_euclid(4) {
        0 => {
            let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
                if let Err(m) = ctx::guard(|| f(&other)) {
                    ctx::fail("panic", format!("unexpected panic: {m}"));
                }
            });
            f(&main);
            if let Ok(h) = h {
                let _ = h.join();
            }
        }
        1 => {
            f(&other);
            f(&main);
            if !ctx::failed() {
                f(&other);
            }
        }
        _ => {
            f(&other);
            f(&main);
        }
    }
}
fn add_neighbour(def: &PropDef, c: &mut Case, r: &mut Rg, i: u64, tier: &str) {
    if c.get("shipped") != 0 || !r.chance(350) {
        return;
    }
    for _ in 0..40 {
        let mut o = (def.gen)(r, i | 1 << 20, tier);
        // each parameter is shared with the main deployment, or not
        let share = *r.pick(&[300, 600, 850, 950]);
        for (k, v) in &c.cfg {
            if !k.contains("seed") && r.chance(share) {
                o.cfg.insert(k.clone(), *v);
            }
        }
        o.cfg.remove("shipped");
        if def.id <= "P02" && !crate::fhe::Pg::load(&o).gates_ok() {
            continue;
        }
        o.ops.truncate(8);
        for (k, v) in o.cfg {
            c.set(&format!("nb.{k}"), v);
        }
        c.set("nb.when", r.below(4) as i64);
        let mut ops: Vec<_> = o.ops.into_iter().map(|mut x| { x.k = format!("nb.{}", x.k); x }).collect();
        ops.append(&mut c.ops);
        c.ops = ops;
        return;
    }
}

/// Run a case in a process of its own, started by this one.
pub fn in_child(case: &Case, f: fn(&Case)) -> RunResult {
    let c = case.clone();
    let (pid, fd) = spawn_child(unsafe { WANT_DETAIL }, move || {
        let c2 = c.clone();
        simulate(&c, move || f(&c2))
    });
    let mut buf = vec![];
    let mut tmp = [0u8; 65536];
    loop {
        let n = unsafe { libc::read(fd, tmp.as_mut_ptr() as *mut _, tmp.len()) };
        if n <= 0 {
            break;
        }
        buf.extend_from_slice(&tmp[..n as usize]);
    }
    finish(pid, fd, &buf, false)
}

struct Job {
    key: usize,
    pid: i32,
    fd: i32,
    buf: Vec<u8>,
    started: Instant,
}

/// A pool of forked children.
pub struct Pool {
    jobs: Vec<Job>,
    pub width: usize,
    pub wall: Duration,
}
impl Pool {
    pub fn new(width: usize, wall: u64) -> Self {
        Pool { jobs: vec![], width, wall: Duration::from_secs(wall) }
    }
    pub fn full(&self) -> bool {
        self.jobs.len() >= self.width
    }
    pub fn idle(&self) -> bool {
        self.jobs.is_empty()
    }
    pub fn launch(&mut self, key: usize, case: &Case, detail: bool) {
        let (pid, fd) = if FRESH { spawn_child(detail, || fresh_image(case, detail)) } else { spawn_child(detail, || exec_case(case)) };
        self.jobs.push(Job { key, pid, fd, buf: vec![], started: Instant::now() });
    }
    /// Wait for some child to finish.
    pub fn next(&mut self) -> (usize, RunResult) {
        loop {
            let mut p: Vec<libc::pollfd> =
                self.jobs.iter().map(|j| libc::pollfd { fd: j.fd, events: libc::POLLIN, revents: 0 }).collect();
            unsafe { libc::poll(p.as_mut_ptr(), p.len() as _, 500) };
            for i in 0..p.len() {
                let late = self.jobs[i].started.elapsed() > self.wall;
                if p[i].revents != 0 || late {
                    let mut tmp = [0u8; 65536];
                    let n = if p[i].revents != 0 {
                        unsafe { libc::read(self.jobs[i].fd, tmp.as_mut_ptr() as *mut _, tmp.len()) }
                    } else {
                        0
                    };
                    if n > 0 {
                        self.jobs[i].buf.extend_from_slice(&tmp[..n as usize]);
                        continue;
                    }
                    let j = self.jobs.swap_remove(i);
                    return (j.key, finish(j.pid, j.fd, &j.buf, late));
                }
            }
        }
    }
}

pub fn finish(pid: i32, fd: i32, buf: &[u8], late: bool) -> RunResult {
    let mut st = 0;
    unsafe {
        libc::close(fd);
        if late {
            libc::kill(pid, libc::SIGKILL);
        }
        libc::waitpid(pid, &mut st, 0);
    }
    if late {
        return RunResult { inconclusive: true, msg: "wall-clock limit".into(), ..Default::default() };
    }
    if libc::WIFSIGNALED(st) {
        let s = libc::WTERMSIG(st);
        if s == libc::SIGKILL {
            return RunResult { inconclusive: true, msg: "killed".into(), ..Default::default() };
        }
        return RunResult {
            class: Some(format!("signal-{s}")),
            msg: format!("the process was terminated by signal {s}"),
            ..Default::default()
        };
    }
    match serde_json::from_slice::<RunResult>(buf) {
        Ok(r) => r,
        Err(e) => RunResult {
            class: Some("process-exit".into()),
            msg: format!("the process ended with status {} before the run was over ({e})", libc::WEXITSTATUS(st)),
            ..Default::default()
        },
    }
}

/// Run a list of cases, results in order.
fn run_all(cases: &[Case], detail: bool, wall: u64) -> Vec<RunResult> {
    let mut pool = Pool::new(8, wall);
    let mut out: Vec<Option<RunResult>> = vec![None; cases.len()];
    let mut next = 0;
    loop {
        while next < cases.len() && !pool.full() {
            pool.launch(next, &cases[next], detail);
            next += 1;
        }
        if pool.idle() {
            break;
        }
        let (k, r) = pool.next();
        out[k] = Some(r);
    }
    out.into_iter().map(|r| r.unwrap()).collect()
}

pub fn run_one(case: &Case, detail: bool) -> RunResult {
    run_all(std::slice::from_ref(case), detail, 300).pop().unwrap()
}

fn case_for(def: &PropDef, seed: u64, tier: &str, i: u64) -> Case {
    let mut r = Rg::new(mix64(seed ^ hash_str(def.id)) ^ mix64(i));
    let mut c = (def.gen)(&mut r, i, tier);
    if def.neighbour {
        add_neighbour(def, &mut c, &mut r, i, tier);
    }
    c
}

/// The cases the search tries: the race flavour has its own, on quick sizes and with a budget that
/// allows for its finer steps.
fn search_case(def: &PropDef, seed: u64, tier: &str, i: u64) -> Case {
    if !rt::RACE {
        return case_for(def, seed, tier, i);
    }
    let mut c = case_for(def, mix64(seed ^ 0x7ace), "quick", i);
    c.sched.max_steps *= 10;
    c
}

// ------------------------------------------------------------------ minimisation
struct Mini {
    goal: RunResult,
    deadline: Instant,
    tried: u64,
}
impl Mini {
    fn fails(&mut self, cands: &[Case]) -> Option<usize> {
        for (ci, ch) in cands.chunks(8).enumerate() {
            if Instant::now() > self.deadline {
                return None;
            }
            self.tried += ch.len() as u64;
            let rs = run_all(ch, false, 60);
            if let Some(k) = rs.iter().position(|r| r.same_failure(&self.goal)) {
                return Some(ci * 8 + k);
            }
        }
        None
    }
}

fn ddmin<T: Clone>(
    m: &mut Mini,
    cur: &mut Case,
    get: impl Fn(&Case) -> Vec<T>,
    put: impl Fn(&mut Case, Vec<T>),
) {
    let mut n = 2usize;
    loop {
        let items = get(cur);
        if items.is_empty() || Instant::now() > m.deadline {
            return;
        }
        n = n.min(items.len());
        let sz = items.len().div_ceil(n);
        let mut cands = vec![];
        for i in 0..n {
            let lo = (i * sz).min(items.len());
            let hi = ((i + 1) * sz).min(items.len());
            if lo == hi {
                continue;
            }
            let mut rest = items[..lo].to_vec();
            rest.extend_from_slice(&items[hi..]);
            let mut c = cur.clone();
            put(&mut c, rest);
            cands.push(c);
        }
        match m.fails(&cands) {
            Some(k) => {
                *cur = cands[k].clone();
                n = (n - 1).max(2);
            }
            None => {
                if n >= items.len() {
                    return;
                }
                n = (n * 2).min(items.len());
            }
        }
    }
}

fn minimise(case: &Case, goal: &RunResult, secs: u64) -> (Case, u64) {
    let mut m = Mini { goal: goal.clone(), deadline: Instant::now() + Duration::from_secs(secs), tried: 0 };
    let mut cur = case.clone();
    // a schedule without preemption, and without fault rates, if that is enough
    let mut cands = vec![];
    let mut c = cur.clone();
    c.sched.strategy = 2;
    c.sched.spurious_pm = 0;
    c.sched.eintr_pm = 0;
    c.sched.short_pm = 0;
    c.sched.biased = 0;
    c.sched.clock_jump_pm = 0;
    cands.push(c);
    let mut c = cur.clone();
    c.sched.strategy = 2;
    cands.push(c);
    let mut c = cur.clone();
    c.sched.spurious_pm = 0;
    c.sched.eintr_pm = 0;
    c.sched.short_pm = 0;
    c.sched.biased = 0;
    c.sched.clock_jump_pm = 0;
    cands.push(c);
    if let Some(k) = m.fails(&cands) {
        cur = cands[k].clone();
    }
    ddmin(&mut m, &mut cur, |c| c.ops.clone(), |c, v| c.ops = v);
    // simplify configuration values and arguments
    for _ in 0..2 {
        let keys: Vec<String> = cur.cfg.keys().cloned().collect();
        for k in keys {
            let v = cur.cfg[&k];
            let mut cands = vec![];
            for nv in [0, 1, v / 2, v - 1] {
                if nv != v && nv.abs() < v.abs().max(1) {
                    let mut c = cur.clone();
                    c.cfg.insert(k.clone(), nv);
                    cands.push(c);
                }
            }
            if let Some(i) = m.fails(&cands) {
                cur = cands[i].clone();
            }
        }
        for i in 0..cur.ops.len().min(24) {
            for j in 0..cur.ops[i].a.len().min(8) {
                let v = cur.ops[i].a[j];
                let mut cands = vec![];
                for nv in [0, 1, v / 2] {
                    if nv != v && nv.abs() < v.abs() {
                        let mut c = cur.clone();
                        c.ops[i].a[j] = nv;
                        cands.push(c);
                    }
                }
                if let Some(k) = m.fails(&cands) {
                    cur = cands[k].clone();
                }
            }
        }
    }
    // explicit schedule: the switches that actually happened, then as few of them as possible
    if cur.sched.strategy != 2 && props::find(&cur.prop).map(|d| d.outer.is_none()).unwrap_or(false) {
        let r = run_one(&cur, true);
        if r.same_failure(goal) && !r.switches.is_empty() {
            let mut c = cur.clone();
            c.sched.strategy = 5;
            c.explicit = r.switches.clone();
            if m.fails(std::slice::from_ref(&c)).is_some() {
                cur = c;
                ddmin(&mut m, &mut cur, |c| c.explicit.clone(), |c, v| c.explicit = v);
            }
        }
    }
    (cur, m.tried)
}

// ------------------------------------------------------------------ check
#[derive(Clone)]
pub struct Opts {
    pub property: String,
    pub tier: String,
    pub seed: u64,
    pub runs: Option<u64>,
    pub wall: Option<u64>,
    pub root: String,
}

fn known_findings(root: &str) -> Vec<(String, String)> {
    // "open: property=<id> class=<class> key=<substring of the message> | <text>"
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("open: property=") {
                let mut it = r.splitn(2, ' ');
                let id = it.next().unwrap_or("").to_string();
                v.push((id, it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}
fn is_known(known: &[(String, String)], prop: &str, r: &RunResult) -> bool {
    known.iter().any(|(id, text)| {
        id == prop && {
            let sig = text.split('|').next().unwrap_or("").trim();
            let mut cls = "";
            let mut key = "";
            for p in sig.splitn(2, " key=") {
                if let Some(c) = p.strip_prefix("class=") {
                    cls = c.trim()
                } else {
                    key = p.trim()
                }
            }
            !key.is_empty() && r.class.as_deref() == Some(cls) && r.msg.contains(key)
        }
    })
}

pub fn check(o: &Opts) -> i32 {
    let def = match props::find(&o.property) {
        Some(d) => d,
        None => {
            eprintln!("unknown property {}", o.property);
            return 2;
        }
    };
    let t0 = Instant::now();
    let thorough = o.tier == "thorough";
    let race = rt::RACE;
    let planned = match (race, thorough) {
        (false, false) => def.runs_quick,
        (false, true) => def.runs_thorough,
        (true, _) => def.race * if thorough { 20 } else { 1 },
    };
    if planned == 0 && o.runs.is_none() {
        return 0;
    }
    let total = o.runs.unwrap_or(planned);
    let wall = Duration::from_secs(o.wall.unwrap_or(match (race, thorough) {
        (false, false) => 300,
        (false, true) => 5400,
        (true, false) => 90,
        (true, true) => 1800,
    }));
    let known = known_findings(&o.root);
    let mut pool = Pool::new(8, if thorough { 1200 } else { 400 });
    let (mut launched, mut done, mut inconcl) = (0u64, 0u64, 0u64);
    let mut cases: BTreeMap<usize, Case> = BTreeMap::new();
    let mut viol: BTreeMap<u64, (Case, RunResult)> = BTreeMap::new();
    let mut knownhits: BTreeMap<String, u64> = BTreeMap::new();
    let mut stat_sum = [0u64; 21];
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: BTreeSet<u64> = BTreeSet::new();
    let mut hists: BTreeSet<u64> = BTreeSet::new();
    let mut nontriv: BTreeSet<u64> = BTreeSet::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut strategies: BTreeMap<String, u64> = BTreeMap::new();
    let mut stop = false;
    loop {
        while !stop && launched < total && !pool.full() {
            if t0.elapsed() > wall {
                stop = true;
                break;
            }
            let c = search_case(def, o.seed, &o.tier, launched);
            pool.launch(launched as usize, &c, false);
            cases.insert(launched as usize, c);
            launched += 1;
        }
        if pool.idle() {
            break;
        }
        let (k, r) = pool.next();
        let c = cases.remove(&k).unwrap();
        done += 1;
        if r.inconclusive {
            inconcl += 1;
            println!("note: run {k} inconclusive: {}", r.msg);
            continue;
        }
        let s = &r.stat;
        let arr = [
            s.steps, s.switches, s.preemptions, s.blocks, s.wakes, s.spurious, s.spawns, s.joins, s.yields, s.sleeps,
            s.entropy_calls, s.eintr, s.shorts, s.fails, s.clock_reads, s.clock_jumps, 0, 0, s.contended, s.simns,
            s.hot_hits,
        ];
        for (a, b) in stat_sum.iter_mut().zip(arr) {
            *a += b;
        }
        for (name, v) in [("max simulated steps of one run", s.steps), ("max yields of one run", s.yields)] {
            let e = counters.entry(name.into()).or_insert(0);
            *e = (*e).max(v);
        }
        for (k, v) in &r.counters {
            if k.starts_with("max ") {
                let e = counters.entry(k.clone()).or_insert(0);
                *e = (*e).max(*v);
            } else {
                *counters.entry(k.clone()).or_insert(0) += v;
            }
        }
        hashes.insert(s.hash);
        hists.insert(r.hist);
        states.extend(r.states.iter().copied());
        if r.nontrivial {
            nontriv.insert(r.hist ^ s.hash.rotate_left(17));
        }
        *strategies.entry(strat_name(c.sched.strategy).into()).or_insert(0) += 1;
        if samples.len() < 3 && r.class.is_none() && r.nontrivial {
            samples.push(json!({"run": k, "case": trim_case(&c), "notes": r.samples, "steps": s.steps, "switches": s.switches,
                "history_hash": format!("{:016x}", r.hist), "schedule_hash": format!("{:016x}", s.hash)}));
        }
        if r.class.is_some() {
            if is_known(&known, def.id, &r) {
                *knownhits.entry(r.class.clone().unwrap()).or_insert(0) += 1;
            } else {
                viol.insert(k as u64, (c, r));
                stop = true;
            }
        }
    }
    let search_wall = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut vio_json = vec![];
    if let Some((k, (case, res))) = viol.iter().next() {
        code = 1;
        let (small, tried) = minimise(case, res, if thorough { 180 } else { 45 });
        let fin = run_one(&small, true);
        let (small, fin) = if fin.class == res.class { (small, fin) } else { (case.clone(), run_one(case, true)) };
        let dir = format!("{}/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}-{}-{}{k}.json", def.id, o.seed, if race { "race-" } else { "" });
        let sites = if fin.class.as_deref() == Some("data-race") { code_sites(&fin.msg) } else { vec![] };
        let doc = json!({
            "property": def.id, "class": fin.class, "message": fin.msg, "seed": o.seed, "run": k, "tier": o.tier,
            "flavour": if race { "race" } else { "normal" }, "code": sites,
            "original_ops": case.ops.len(), "minimised_ops": small.ops.len(), "minimiser_runs": tried,
            "case": small, "history_hash": format!("{:016x}", fin.hist), "schedule_hash": format!("{:016x}", fin.stat.hash),
            "schedule": fin.switches.iter().take(2000).collect::<Vec<_>>(),
            "faults": fault_json(&fin.stat), "trace": fin.trace,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
        println!("{}: run {k} of seed {}: {} - {}", def.id, o.seed, fin.class.clone().unwrap_or_default(), fin.msg);
        for l in fin.trace.iter().rev().take(12).rev() {
            println!("  {l}");
        }
        for l in &sites {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", def.id, path);
        vio_json.push(json!({"class": fin.class, "message": fin.msg, "replay": path}));
    }
    for (id, text) in &known {
        if id == def.id && !race {
            println!("KNOWN-FINDING: property={id} {}", text.split('|').nth(1).unwrap_or(text).trim());
        }
    }
    let faults: BTreeMap<String, u64> = fault_map(&stat_sum, &counters);
    let dir = format!("{}/evidence", o.root);
    let _ = std::fs::create_dir_all(&dir);
    let ev = json!({
        "property": def.id, "tier": o.tier, "seed": o.seed, "level": "exploration",
        "coverage": {
            "evaluations": done, "distinct_nontrivial": nontriv.len(), "rule": def.rule, "samples": samples,
            "simulated_runs": done, "inconclusive_runs": inconcl, "planned_runs": total,
            "runs_per_hour": if search_wall > 0.0 { (done as f64 / search_wall * 3600.0) as u64 } else { 0 },
            "seeds_per_hour": if search_wall > 0.0 { (done as f64 / search_wall * 3600.0) as u64 } else { 0 },
            "simulated_time_s": stat_sum[19] as f64 / 1e9,
            "scheduler_steps": stat_sum[0], "context_switches": stat_sum[1], "preemptions": stat_sum[2],
            "blocks": stat_sum[3], "threads_spawned": stat_sum[6], "contended_choices": stat_sum[18],
            "faults_injected": faults,
            "distinct_schedules": hashes.len(), "distinct_histories": hists.len(), "distinct_states": states.len(),
            "measure": "a schedule is the hash of every context switch (from, to, position); a history is the hash of every recorded operation and result; a state is an abstract state noted by the scenario",
            "instrumented_edges": rt::edges(), "scheduling_strategies": strategies,
            "counters": counters, "real_components": def.real, "stubbed_components": def.stub,
            "known_findings_hit": knownhits,
        },
        "wall_s": t0.elapsed().as_secs_f64(), "violations": vio_json, "assumptions": def.assumptions,
    });
    let path = format!("{dir}/{}.json", def.id);
    let ev = if race { merge_stage(&path, ev) } else { ev };
    let _ = std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap());
    println!(
        "{} {}{}: {} runs, {} distinct histories, {} distinct schedules, {} steps, {} violations, {:.1}s",
        def.id,
        o.tier,
        if race { ", data races" } else { "" },
        done,
        hists.len(),
        hashes.len(),
        stat_sum[0],
        viol.len(),
        t0.elapsed().as_secs_f64()
    );
    if code == 0 && (done == 0 || inconcl * 4 > done) {
        println!("note: too many inconclusive runs");
        return 2;
    }
    code
}

/// Puts what the race flavour covered beside what the normal flavour wrote just before.
fn merge_stage(path: &str, ev: Value) -> Value {
    let doc: Option<Value> = std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok());
    match doc {
        Some(mut d) if d["seed"] == ev["seed"] && d["tier"] == ev["tier"] && d["coverage"].is_object() => {
            let mut c = ev["coverage"].clone();
            for k in ["real_components", "stubbed_components", "measure", "rule", "known_findings_hit"] {
                c.as_object_mut().unwrap().remove(k);
            }
            c["wall_s"] = ev["wall_s"].clone();
            c["about"] = json!("the same scenarios, std included compiled with access callbacks: every access is a preemption point and is checked by vector clocks against the accesses of other threads");
            d["coverage"]["data_race_stage"] = c;
            d["wall_s"] = json!(d["wall_s"].as_f64().unwrap_or(0.0) + ev["wall_s"].as_f64().unwrap_or(0.0));
            d["violations"] = ev["violations"].clone();
            d
        }
        _ => ev,
    }
}

/// Function names for the code addresses in a race report, as far as the tools at hand can tell.
fn code_sites(msg: &str) -> Vec<String> {
    let exe = std::env::current_exe().unwrap_or_default();
    let mut out = vec![];
    for w in msg.split("code 0x").skip(1) {
        let hex: String = w.chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        let at = u64::from_str_radix(&hex, 16).unwrap_or(1).wrapping_sub(1);
        let o = std::process::Command::new("addr2line").args(["-f", "-C", "-e"]).arg(&exe).arg(format!("{at:#x}")).output();
        let name = o.ok().and_then(|o| String::from_utf8(o.stdout).ok()).and_then(|t| t.lines().next().map(|l| l.to_string()));
        out.push(format!("code 0x{hex}: {}", name.unwrap_or_else(|| "?".into())));
    }
    out
}

fn trim_case(c: &Case) -> Value {
    let mut c = c.clone();
    c.ops.truncate(30);
    serde_json::to_value(&c).unwrap()
}

fn strat_name(s: u32) -> &'static str {
    ["random-walk", "priority", "cooperative", "hot-edges", "starve", "explicit"][(s as usize).min(5)]
}

fn fault_json(s: &Stat) -> Value {
    json!({"spurious_wakeups": s.spurious, "getrandom_eintr": s.eintr, "getrandom_short_reads": s.shorts, "getrandom_failures": s.fails,
        "clock_jumps": s.clock_jumps, "preemptions": s.preemptions})
}

fn fault_map(s: &[u64; 21], counters: &BTreeMap<String, u64>) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    m.insert("preemption".into(), s[2]);
    m.insert("spurious futex wakeup".into(), s[5]);
    m.insert("getrandom EINTR".into(), s[11]);
    m.insert("getrandom short read".into(), s[12]);
    m.insert("getrandom failure".into(), s[13]);
    m.insert("clock jump".into(), s[15]);
    for (k, v) in counters {
        if let Some(f) = k.strip_prefix("fault ") {
            m.insert(f.into(), *v);
        }
    }
    m
}

pub fn replay(path: &str) -> i32 {
    let doc: Value = match std::fs::read_to_string(path).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(d) => d,
        None => {
            eprintln!("cannot read {path}");
            return 2;
        }
    };
    let case: Case = serde_json::from_value(doc["case"].clone()).expect("case");
    let r = run_one(&case, true);
    for l in &r.trace {
        println!("  {l}");
    }
    let hist = format!("{:016x}", r.hist);
    let sch = format!("{:016x}", r.stat.hash);
    println!("class={:?} message={}", r.class, r.msg);
    println!(
        "history {hist} ({}), schedule {sch} ({})",
        if doc["history_hash"] == hist.as_str() { "as recorded" } else { "differs from the recording" },
        if doc["schedule_hash"] == sch.as_str() { "as recorded" } else { "differs from the recording" }
    );
    if r.class.is_some() {
        println!("VIOLATION property={} replay={}", case.prop, path);
        1
    } else {
        println!("no violation");
        0
    }
}

/// Every run twice, in different processes: results must be identical.
pub fn determinism(prop: &str, n: u64, seed: u64, tier: &str) -> i32 {
    let def = props::find(prop).expect("property");
    let cases: Vec<Case> = (0..n).map(|i| search_case(def, seed, tier, i)).collect();
    let a = run_all(&cases, false, 400);
    let b = run_all(&cases, false, 400);
    let mut bad = 0;
    for i in 0..cases.len() {
        let (x, y) = (&a[i], &b[i]);
        if x.class != y.class || x.hist != y.hist || x.stat != y.stat || x.counters != y.counters {
            bad += 1;
            println!("run {i} differs: {:?}/{:?} hist {:x}/{:x}\n {:?}\n {:?}", x.class, y.class, x.hist, y.hist, x.stat, y.stat);
        }
    }
    println!("{prop}: {n} runs executed twice, {bad} differ");
    (bad > 0) as i32
}

pub fn show(prop: &str, seed: u64, i: u64, tier: &str) -> i32 {
    let def = props::find(prop).expect("property");
    let c = search_case(def, seed, tier, i);
    println!("{}", serde_json::to_string(&c).unwrap());
    let t = Instant::now();
    let r = run_one(&c, true);
    for l in &r.trace {
        println!("  {l}");
    }
    println!("class={:?} msg={} hist={:x} stat={:?} counters={:?} samples={:?} {:.3}s", r.class, r.msg, r.hist, r.stat, r.counters, r.samples, t.elapsed().as_secs_f64());
    0
}
