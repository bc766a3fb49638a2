//! Stateless explicit enumeration: a harness is a closure that asks `Ctx` for every choice; the engine runs it once
//! for every sequence of choices (depth first, in parallel), optionally bounding the number of deviations.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub struct Fail {
    /// identity of the failing input, for the known-findings file ("" when it has none)
    pub key: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

#[macro_export]
macro_rules! fail {
    ($($a:tt)*) => { return Err($crate::engine::Fail{key:String::new(), msg: format!($($a)*)}) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { $crate::fail!($($a)*) } };
}

/// Hash of observations (FNV-1a over u64 words, with a final mix).
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf29ce484222325)
    }
    pub fn u(&mut self, x: u64) -> &mut Self {
        self.0 = (self.0 ^ x).wrapping_mul(0x100000001b3);
        self.0 ^= self.0 >> 29;
        self
    }
    pub fn f(&mut self, x: f64) -> &mut Self {
        self.u(x.to_bits())
    }
    pub fn fs(&mut self, x: &[f64]) -> &mut Self {
        self.u(x.len() as u64);
        for v in x {
            self.f(*v);
        }
        self
    }
    pub fn b(&mut self, x: &[u8]) -> &mut Self {
        self.u(x.len() as u64);
        for v in x {
            self.u(*v as u64);
        }
        self
    }
    pub fn done(&self) -> u64 {
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
}

pub struct Ctx {
    prefix: Vec<u16>,
    pub choices: Vec<u16>,
    arity: Vec<u16>,
    dev: Vec<bool>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub transitions: u64,
    pub states: Vec<u64>,
    obs: H,
    slot: Option<Arc<Slot>>,
    pub skipped: bool,
}
impl Ctx {
    fn new(prefix: Vec<u16>, verbose: bool, slot: Option<Arc<Slot>>) -> Ctx {
        Ctx { prefix, choices: vec![], arity: vec![], dev: vec![], verbose, log: vec![], transitions: 0, states: vec![], obs: H::new(), slot, skipped: false }
    }
    fn raw(&mut self, label: &str, n: usize, dev: bool) -> usize {
        assert!(n > 0 && n < 60000, "engine: empty choice {label}");
        let i = self.choices.len();
        let c = if i < self.prefix.len() { self.prefix[i] as usize } else { 0 };
        assert!(c < n, "engine: replayed choice {c} out of range {n} at {label}: the execution diverged from its prefix");
        self.choices.push(c as u16);
        self.arity.push(n as u16);
        self.dev.push(dev);
        if let Some(s) = &self.slot {
            s.cur.lock().unwrap().push(c as u16);
        }
        c
    }
    /// A choice among `n` alternatives, all explored.
    pub fn choose(&mut self, label: &str, n: usize) -> usize {
        let c = self.raw(label, n, false);
        if self.verbose {
            self.log.push(format!("{label}={c}"));
        }
        c
    }
    /// A choice whose alternatives other than 0 count as a deviation (preemption).
    pub fn choose_dev(&mut self, label: &str, n: usize) -> usize {
        let c = self.raw(label, n, true);
        if self.verbose {
            self.log.push(format!("{label}={c}"));
        }
        c
    }
    pub fn pick<'a, T: std::fmt::Debug>(&mut self, label: &str, xs: &'a [T]) -> &'a T {
        let c = self.raw(label, xs.len(), false);
        if self.verbose {
            self.log.push(format!("{label}={:?}", xs[c]));
        }
        &xs[c]
    }
    pub fn flag(&mut self, label: &str) -> bool {
        let c = self.raw(label, 2, false) == 1;
        if self.verbose {
            self.log.push(format!("{label}={c}"));
        }
        c
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(s);
        }
    }
    /// one operation / transition on the code under test
    pub fn step(&mut self) {
        self.transitions += 1;
    }
    /// a state of the code under test was reached
    pub fn state(&mut self, h: u64) {
        self.states.push(h);
        self.obs.u(h);
    }
    pub fn obs_f(&mut self, x: &[f64]) {
        self.obs.fs(x);
    }
    pub fn obs_u(&mut self, x: u64) {
        self.obs.u(x);
    }
    /// The chosen combination is outside the space (not an execution).
    pub fn skip(&mut self) -> R {
        self.skipped = true;
        Ok(())
    }
}

pub struct Harness {
    pub name: String,
    pub f: Box<dyn Fn(&mut Ctx) -> R + Sync + Send>,
    /// bound on the number of deviations (None: no deviation choices)
    pub dev_bound: Option<usize>,
    /// run executions one at a time (the harness uses threads or process-wide resources itself)
    pub serial: bool,
}
pub fn harness(name: &str, f: impl Fn(&mut Ctx) -> R + Sync + Send + 'static) -> Harness {
    Harness { name: name.to_string(), f: Box::new(f), dev_bound: None, serial: false }
}
impl Harness {
    pub fn dev(mut self, b: usize) -> Self {
        self.dev_bound = Some(b);
        self
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
}

pub struct Slot {
    cur: Mutex<Vec<u16>>,
    start: AtomicU64,
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub name: String,
    pub executions: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_choices: usize,
    pub replays_checked: u64,
    pub capped: bool,
    pub wall: f64,
    pub samples: Vec<(Vec<u16>, Vec<String>)>,
}
pub struct Outcome {
    pub stats: Stats,
    pub violations: Vec<(Vec<u16>, Fail)>,
    pub known: Vec<(String, String)>,
}

pub fn run_one(h: &Harness, prefix: Vec<u16>, verbose: bool, slot: Option<Arc<Slot>>) -> (Ctx, R) {
    let mut ctx = Ctx::new(prefix, verbose, slot);
    let r = catch_unwind(AssertUnwindSafe(|| (h.f)(&mut ctx)));
    let r = match r {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            if m.contains("the execution diverged from its prefix") {
                // the harness owns every source of nondeterminism, so the code under test behaved differently this time
                return (ctx, Err(Fail { key: String::new(), msg: "the same choices led to different behaviour (hidden shared state or nondeterminism)".into() }));
            }
            if m.starts_with("engine:") {
                eprintln!("ENGINE ERROR in {}: {m} choices={:?}", h.name, ctx.choices);
                std::process::exit(3);
            }
            Err(Fail { key: String::new(), msg: format!("panic: {m}") })
        }
    };
    (ctx, r)
}

fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64
}

const SHARDS: usize = 64;
struct Sets {
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
}

pub const HANG_S: u64 = 60;

/// Explore all executions of `h`.
pub fn explore(prop: &str, h: &Harness, threads: usize, cap: Duration, known: &[(String, String)], on_hang: &(dyn Fn(&[u16]) + Sync)) -> Outcome {
    let t0 = Instant::now();
    let threads = if h.serial { 1 } else { threads };
    let queue: Mutex<Vec<Vec<u16>>> = Mutex::new(vec![vec![]]);
    let pending = AtomicUsize::new(1); // work items queued or in progress
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let qlen = AtomicUsize::new(1);
    let sets = Sets {
        states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
        outcomes: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
    };
    let slots: Vec<Arc<Slot>> = (0..threads).map(|_| Arc::new(Slot { cur: Mutex::new(vec![]), start: AtomicU64::new(0) })).collect();
    let viol: Mutex<Vec<(Vec<u16>, Fail)>> = Mutex::new(vec![]);
    let known_hit: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let total: Mutex<Stats> = Mutex::new(Stats { name: h.name.clone(), ..Default::default() });
    let _ = prop;
    std::thread::scope(|s| {
        let ws: Vec<_> = slots
            .iter()
            .cloned()
            .map(|slot| {
                let (queue, pending, stop, capped, sets, viol, known_hit, total, qlen) = (&queue, &pending, &stop, &capped, &sets, &viol, &known_hit, &total, &qlen);
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        let mut local: Vec<Vec<u16>> = vec![];
                        let mut st = Stats::default();
                        loop {
                            if stop.load(Relaxed) {
                                break;
                            }
                            let item = match local.pop() {
                                Some(x) => Some(x),
                                None => {
                                    let x = queue.lock().unwrap().pop();
                                    if x.is_some() {
                                        qlen.fetch_sub(1, Relaxed);
                                    }
                                    x
                                }
                            };
                            let Some(prefix) = item else {
                                if pending.load(SeqCst) == 0 {
                                    break;
                                }
                                std::thread::yield_now();
                                std::thread::sleep(Duration::from_micros(50));
                                continue;
                            };
                            if t0.elapsed() > cap {
                                capped.store(true, Relaxed);
                                stop.store(true, Relaxed);
                                break;
                            }
                            slot.cur.lock().unwrap().clear();
                            slot.start.store(now_ms(), Relaxed);
                            let plen = prefix.len();
                            let (ctx, r) = run_one(h, prefix, false, Some(slot.clone()));
                            // replay a fraction of the executions: the harness must own every source of nondeterminism
                            let oh = ctx.obs.done();
                            if st.executions < 3 || oh % 256 == 0 {
                                slot.cur.lock().unwrap().clear();
                                slot.start.store(now_ms(), Relaxed);
                                let (c2, r2) = run_one(h, ctx.choices.clone(), false, Some(slot.clone()));
                                st.replays_checked += 1;
                                if c2.obs.done() != oh || r2.is_ok() != r.is_ok() || c2.choices != ctx.choices {
                                    viol.lock().unwrap().push((
                                        ctx.choices.clone(),
                                        Fail { key: String::new(), msg: "two executions of the same case gave different observations (hidden shared state or nondeterminism)".into() },
                                    ));
                                    stop.store(true, Relaxed);
                                }
                            }
                            slot.start.store(0, Relaxed);
                            if ctx.skipped {
                                st.skipped += 1;
                            } else {
                                st.executions += 1;
                                st.transitions += ctx.transitions;
                                for x in &ctx.states {
                                    sets.states[(*x as usize) % SHARDS].lock().unwrap().insert(*x);
                                }
                                sets.outcomes[(oh as usize) % SHARDS].lock().unwrap().insert(oh);
                            }
                            st.max_choices = st.max_choices.max(ctx.choices.len());
                            if let Err(f) = r {
                                if let Some((_, what)) = known.iter().find(|(k, _)| !f.key.is_empty() && *k == f.key) {
                                    let mut kh = known_hit.lock().unwrap();
                                    if !kh.iter().any(|(k, _)| *k == f.key) {
                                        kh.push((f.key.clone(), what.clone()));
                                    }
                                } else {
                                    let mut v = viol.lock().unwrap();
                                    v.push((ctx.choices.clone(), f));
                                    if v.len() >= 8 {
                                        stop.store(true, Relaxed);
                                    }
                                }
                            }
                            // children: every alternative at every point after the prefix
                            let mut devs: usize = (0..plen).filter(|&i| ctx.dev[i] && ctx.choices[i] != 0).count();
                            let mut n_new = 0;
                            for i in plen..ctx.choices.len() {
                                let is_dev = ctx.dev[i];
                                if is_dev && h.dev_bound.map_or(false, |b| devs + 1 > b) {
                                    // not explored beyond the bound
                                } else {
                                    for alt in (1..ctx.arity[i]).rev() {
                                        let mut p = ctx.choices[..i].to_vec();
                                        p.push(alt);
                                        local.push(p);
                                        n_new += 1;
                                    }
                                }
                                if is_dev && ctx.choices[i] != 0 {
                                    devs += 1;
                                }
                            }
                            pending.fetch_add(n_new, SeqCst);
                            pending.fetch_sub(1, SeqCst);
                            if local.len() > 1 && qlen.load(Relaxed) < threads * 2 {
                                let k = (local.len() + 1) / 2;
                                let give: Vec<_> = local.drain(..k).collect();
                                qlen.fetch_add(give.len(), Relaxed);
                                queue.lock().unwrap().extend(give);
                            }
                        }
                        let mut t = total.lock().unwrap();
                        t.executions += st.executions;
                        t.skipped += st.skipped;
                        t.transitions += st.transitions;
                        t.replays_checked += st.replays_checked;
                        t.max_choices = t.max_choices.max(st.max_choices);
                    })
                    .unwrap()
            })
            .collect();
        // watchdog: an execution that does not come back is a violation (every harness is closed and tiny)
        let (slots2, done2) = (&slots, &done);
        let wd = s.spawn(move || {
            while !done2.load(Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let n = now_ms();
                for sl in slots2.iter() {
                    let st = sl.start.load(Relaxed);
                    if st != 0 && n.saturating_sub(st) > HANG_S * 1000 {
                        let c = sl.cur.lock().unwrap().clone();
                        on_hang(&c);
                    }
                }
            }
        });
        for w in ws {
            w.join().unwrap();
        }
        done.store(true, Relaxed);
        wd.join().unwrap();
    });
    let mut stats = total.into_inner().unwrap();
    stats.states = sets.states.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    stats.outcomes = sets.outcomes.iter().map(|m| m.lock().unwrap().len() as u64).sum();
    stats.capped = capped.load(Relaxed);
    stats.wall = t0.elapsed().as_secs_f64();
    let mut violations = viol.into_inner().unwrap();
    violations.sort_by_key(|(c, _)| (c.iter().filter(|x| **x != 0).count(), c.clone()));
    // a few written-out cases: the first execution and two picked by fixed rules
    if violations.is_empty() {
        let (c0, _) = run_one(h, vec![], true, None);
        stats.samples.push((c0.choices.clone(), c0.log.clone()));
        // last execution in lexicographic order
        let mut p: Vec<u16> = vec![];
        loop {
            let (c, _) = run_one(h, p.clone(), true, None);
            if c.choices.len() == p.len() || p.len() > 200 {
                stats.samples.push((c.choices.clone(), c.log.clone()));
                break;
            }
            let i = p.len();
            p.push(if c.dev[i] { 0 } else { c.arity[i] - 1 });
        }
    }
    Outcome { stats, violations, known: known_hit.into_inner().unwrap() }
}
