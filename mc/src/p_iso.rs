//! C19 isolation: same-thread interleavings, nesting inside a model evaluation, concurrent walks under a controlled scheduler.
use crate::engine::*;
use crate::ensure;
use crate::p_walk::smooth;
use crate::systems::*;
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use std::collections::HashMap;
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::Duration;

#[derive(Clone, PartialEq, Debug)]
pub enum Sys {
    G(Box<GenSys>),
    A(Box<System3TM>),
    B(Box<System3TMWithBC>),
}
macro_rules! each {
    ($s:expr, $y:ident, $e:expr) => {
        match $s {
            Sys::G($y) => $e,
            Sys::A($y) => $e,
            Sys::B($y) => $e,
        }
    };
}
/// spec = (system kind, solver, variant); variants 2, 3, 4 are variant 0 with only the model's parameters,
/// only the initial states, only the solver's settings changed
pub type Spec = (usize, usize, usize);
pub fn make(sp: Spec, reports: usize) -> Sys {
    let (k, s, v) = sp;
    let (par, init, set) = (v == 2, v == 3, v == 4);
    let v = if v == 1 { 1 } else { 0 };
    let dt = if v == 0 { 0.13 } else { 0.08 };
    let rep: Vec<f64> = (0..reports).map(|i| (0.1 + 0.05 * v as f64) * (i as f64 + 0.5)).collect();
    let dt = if set { 0.021 } else { dt };
    let st = if s < FIXED { fixed(s, dt) } else { adaptive(s, aconf(if set { 0.03 } else { 0.1 }, 0.12, 3 + v as u8, if set { 1e-6 } else { 1e-3 }, 1e-9, v == 1, v == 1)) };
    match k {
        0 => {
            let mut rhs = if v == 0 { smooth() } else { Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] } };
            if par {
                rhs.p[0] *= -2.0;
                rhs.p[1] += 1.0;
            }
            let mut y0 = if v == 0 { crate::p_walk::Y0 } else { [4.0, -2.0, 0.1, 0.7, 9.0, -3.0] };
            if init {
                y0[2] += 0.5;
            }
            Sys::G(Box::new(gen_sys(st, rhs, 0.0, &y0, rep)))
        }
        1 => {
            let mut y = System3TM { solver_type: st, t_report: rep, ..Default::default() };
            if par {
                y.h12.h *= 3.0;
                y.m3.c *= 0.5;
            }
            if init {
                y.m3.state.temp += 4.0;
            }
            Sys::A(Box::new(y))
        }
        _ => {
            let mut y = System3TMWithBC { solver_type: st, t_report: rep, ..Default::default() };
            if par {
                y.h23.h *= 3.0;
                y.m2.c *= 0.5;
            }
            if init {
                y.m3.state.temp += 4.0;
            }
            Sys::B(Box::new(y))
        }
    }
}
impl Sys {
    fn report(&mut self) {
        each!(self, y, {
            let k = y.state.i;
            y.solve_step();
            y.state.i = k + 1;
            y.save_state();
        })
    }
    pub fn walk(&mut self) {
        each!(self, y, y.walk())
    }
    pub fn bytes(&self) -> Vec<u8> {
        each!(self, y, y.to_bincode())
    }
    fn bare(&self) {
        each!(self, y, {
            let mut c = y.bare_clone();
            c.update_derivs();
        })
    }
}
fn hash(b: &[u8]) -> u64 {
    H::new().b(b).done()
}
/// result of the system walked alone, on a thread of its own
fn solo(sp: Spec, reports: usize) -> std::sync::Arc<Vec<u8>> {
    static M: OnceLock<Mutex<HashMap<(Spec, usize), std::sync::Arc<Vec<u8>>>>> = OnceLock::new();
    let mut m = M.get_or_init(Default::default).lock().unwrap_or_else(|e| e.into_inner());
    m.entry((sp, reports))
        .or_insert_with(|| {
            std::thread::spawn(move || {
                probe_start(false, 200_000);
                let mut y = make(sp, reports);
                y.walk();
                std::sync::Arc::new(y.bytes())
            })
            .join()
            .unwrap_or_else(|_| panic!("walking the system alone fails"))
        })
        .clone()
}
fn differs(y: &Sys, sp: Spec, reports: usize) -> Option<String> {
    let want = solo(sp, reports);
    if y.bytes() == *want {
        return None;
    }
    let mut z = make(sp, reports);
    z.walk();
    Some(format!("{} {:?} differs from its solo run: {:?} instead of e.g. {:?}", SOLVERS[sp.1], sp, short(y), short(&z)))
}
fn short(y: &Sys) -> String {
    match y {
        Sys::G(y) => format!("t={:?} y={:?}", y.state.time, y.y()),
        Sys::A(y) => format!("t={:?} {:?} {:?} {:?}", y.state.time, y.m1.state.temp, y.m2.state.temp, y.m3.state.temp),
        Sys::B(y) => format!("t={:?} {:?} {:?} {:?}", y.state.time, y.m1.state.temp, y.m2.state.temp, y.m3.state.temp),
    }
}

struct Turn {
    turn: usize,
    done: Vec<bool>,
    /// a thread did not reach its next scheduling point (it waits for another one): let all run
    free: bool,
}
struct Baton {
    m: Mutex<Turn>,
    cv: Condvar,
}
impl Baton {
    fn wait(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        let t0 = std::time::Instant::now();
        while g.turn != me && !g.free {
            let (g2, _) = self.cv.wait_timeout(g, Duration::from_millis(500)).unwrap();
            g = g2;
            if t0.elapsed() > Duration::from_secs(10) {
                g.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn give(&self, to: usize) {
        self.m.lock().unwrap().turn = to;
        self.cv.notify_all();
    }
}
struct SendCtx<'a>(&'a mut Ctx);
unsafe impl Send for SendCtx<'_> {}

/// run one walk per spec, each on its own thread, one thread at a time; every model evaluation is a scheduling point
fn concurrent(ctx: &mut Ctx, specs: &[Spec], reports: usize) -> Result<Vec<Sys>, String> {
    let n = specs.len();
    for sp in specs {
        solo(*sp, reports);
    }
    let first = if n > 1 { ctx.choose("first", n) } else { 0 };
    let baton = Baton { m: Mutex::new(Turn { turn: first, done: vec![false; n], free: false }), cv: Condvar::new() };
    let shared = Mutex::new(SendCtx(ctx));
    // order of threads as alternatives: the running one first
    let others = |me: usize, g: &Turn| -> Vec<usize> { (1..n).map(|k| (me + k) % n).filter(|k| !g.done[*k]).collect() };
    let out: Vec<std::thread::Result<Sys>> = std::thread::scope(|s| {
        let (baton, shared, others) = (&baton, &shared, &others);
        let hs: Vec<_> = (0..n)
            .map(|me| {
                let sp = specs[me];
                s.spawn(move || {
                    baton.wait(me);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut y = make(sp, reports);
                        probe_start(false, 200_000);
                        // the hook lives only as long as this scope's thread body
                        let hook: Box<dyn FnMut(u64) + '_> = Box::new(move |_| {
                            let (free, alts) = {
                                let g = baton.m.lock().unwrap();
                                (g.free, others(me, &g))
                            };
                            if free || alts.is_empty() {
                                return;
                            }
                            let c = {
                                let mut c = shared.lock().unwrap_or_else(|e| e.into_inner());
                                c.0.step();
                                c.0.choose_dev("switch", alts.len() + 1)
                            };
                            if c > 0 {
                                baton.give(alts[c - 1]);
                                baton.wait(me);
                            }
                        });
                        let hook: Box<dyn FnMut(u64) + 'static> = unsafe { std::mem::transmute(hook) };
                        PROBE.with(|p| p.borrow_mut().hook = Some(hook));
                        y.walk();
                        PROBE.with(|p| p.borrow_mut().hook = None);
                        y
                    }));
                    PROBE.with(|p| p.borrow_mut().hook = None);
                    let alts = {
                        let mut g = baton.m.lock().unwrap();
                        g.done[me] = true;
                        if g.free { vec![] } else { others(me, &g) }
                    };
                    if !alts.is_empty() {
                        let c = if alts.len() > 1 { shared.lock().unwrap_or_else(|e| e.into_inner()).0.choose("next", alts.len()) } else { 0 };
                        baton.give(alts[c]);
                    }
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(Err)).collect()
    });
    let mut v = vec![];
    for r in out {
        match r {
            Ok(y) => v.push(y),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return Err(format!("a concurrent walk panicked: {m}"));
            }
        }
    }
    Ok(v)
}

struct Stepped {
    points: u64,
    traps: u64,
    forks: u64,
    mine: usize,
    failed: Option<(u64, i32)>,
}
fn stepped(a: Spec, b: Spec, shard: usize, shards: usize, only: Option<u64>) -> Result<Stepped, Fail> {
    use std::io::Write;
    let hex = |v: &[u8]| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
    let mut c = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("step")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn()
        .expect("mc step");
    let text = format!("{} {} {} {} {} {} {shard} {shards} {}\n{}\n{}\n", a.0, a.1, a.2, b.0, b.1, b.2, only.unwrap_or(u64::MAX), hex(&solo(a, 1)), hex(&solo(b, 1)));
    let _ = c.stdin.take().unwrap().write_all(text.as_bytes());
    let o = c.wait_with_output().expect("mc step");
    let w: Vec<i64> = String::from_utf8_lossy(&o.stdout).split_whitespace().filter_map(|x| x.parse().ok()).collect();
    if w.len() != 6 {
        crate::fail!("the process walking two systems died ({})", o.status);
    }
    Ok(Stepped { points: w[0] as u64, traps: w[1] as u64, forks: w[2] as u64, mine: w[3] as usize, failed: (w[4] >= 0).then_some((w[4] as u64, w[5] as i32)) })
}

/// System3TM evaluates without the probe; for concurrent walks only the harness's own system has scheduling points inside steps
pub fn c19(th: bool) -> Vec<Harness> {
    vec![
        harness("after other walks", move |ctx| {
            // a walk gives the same result whatever ran before it on this thread
            let sp = (ctx.choose("system", 3), ctx.choose("solver", 7), ctx.choose("variant", 5));
            let n = ctx.choose("walks before", 3);
            probe_start(false, 1_000_000);
            for k in 0..n {
                let q = (ctx.choose("system", 3), if k == 0 { ctx.choose("solver", 7) } else { sp.1 }, if n == 1 { ctx.choose("variant", 5) } else { 2 * ctx.choose("variant", 2) });
                let mut y = make(q, 2);
                ctx.step();
                y.walk();
            }
            let mut y = make(sp, 4);
            ctx.step();
            y.walk();
            if let Some(m) = differs(&y, sp, 4) {
                return Err(Fail { key: String::new(), msg: m });
            }
            ctx.state(hash(&y.bytes()));
            Ok(())
        })
        .serial(),
        harness("very many steps", move |ctx| {
            // the same small walk over and over on one thread: however much the process has done before, it is the same to the bit
            let s = ctx.choose("solver", 7);
            let steps = if th { 40_000_000u64 } else { 4_000_000 };
            let st = if s < FIXED { fixed(s, 0.01) } else { adaptive(s, aconf(0.01, 0.01, 3, 1e-3, 1e-9, false, false)) };
            let rhs = Rhs { kind: LOGISTIC, p: vec![0.7] };
            let y0 = gen_sys(st, rhs, 0.0, &[0.3, 0.2, 0.1, 0.0, 0.0, 0.0], vec![2.0]);
            let mut want: Option<Vec<u64>> = None;
            let (mut n, mut walks) = (0u64, 0u64);
            while n < steps {
                let mut y = y0.clone();
                y.walk();
                let got: Vec<u64> = y.y().iter().map(|x| x.to_bits()).chain([y.state.time.to_bits()]).collect();
                n += 200;
                walks += 1;
                ctx.transitions += 200;
                match &want {
                    None => {
                        ctx.state(hash(&y.to_bincode()));
                        want = Some(got)
                    }
                    Some(w) => ensure!(*w == got, "{}: walk {walks} of the same system, after {} steps, ends at {}, the first one ended elsewhere", SOLVERS[s], n - 200, short(&Sys::G(Box::new(y)))),
                }
            }
            Ok(())
        }),
        harness("step by step on one thread", move |ctx| {
            let rn = 3;
            let a = (ctx.choose("system", 3), ctx.choose("solver", 7), 0);
            let b = (ctx.choose("system", 3), ctx.choose("solver", 7), ctx.choose("variant", 5));
            let mut y = [make(a, rn), make(b, rn)];
            let mut done = [0, 0];
            probe_start(false, 1_000_000);
            while done[0] < rn || done[1] < rn {
                let k = if done[0] == rn { 1 } else if done[1] == rn { 0 } else { ctx.choose("next", 2) };
                ctx.step();
                y[k].report();
                done[k] += 1;
                ctx.state(hash(&y[k].bytes()));
            }
            for (y, sp) in y.iter().zip([a, b]) {
                if let Some(m) = differs(y, sp, rn) {
                    return Err(Fail { key: String::new(), msg: m });
                }
            }
            Ok(())
        })
        .serial(),
        harness("three systems on one thread", move |ctx| {
            let rn = 2;
            let s = ctx.choose("solver", 7);
            let specs = [(0, s, 0), (ctx.choose("system", 3), (s + ctx.choose("offset", 7)) % 7, 1), (1, ctx.choose("solver", 7), 0)];
            let mut y: Vec<Sys> = specs.iter().map(|s| make(*s, rn)).collect();
            let mut done = [0; 3];
            probe_start(false, 1_000_000);
            loop {
                let left: Vec<usize> = (0..3).filter(|k| done[*k] < rn).collect();
                if left.is_empty() {
                    break;
                }
                let k = if left.len() == 1 { left[0] } else { left[ctx.choose("next", left.len())] };
                ctx.step();
                y[k].report();
                done[k] += 1;
                ctx.state(hash(&y[k].bytes()));
            }
            for (y, sp) in y.iter().zip(specs) {
                if let Some(m) = differs(y, sp, rn) {
                    return Err(Fail { key: String::new(), msg: m });
                }
            }
            Ok(())
        })
        .serial(),
        harness("inside another system's model", move |ctx| {
            // at one model evaluation of the outer walk, something is done with another system
            let rn = 2;
            let a = (0, ctx.choose("outer solver", 7), ctx.choose("outer variant", 2));
            let b = (ctx.choose("inner system", 3), ctx.choose("inner solver", 7), ctx.choose("inner variant", 3));
            let op = ctx.choose("inner work", 3);
            let n_ev = {
                probe_start(false, 200_000);
                make(a, rn).walk();
                probe_evals()
            };
            let at = ctx.choose("at evaluation", n_ev as usize) as u64 + 1;
            let inner = std::rc::Rc::new(std::cell::RefCell::new(make(b, rn)));
            let i2 = inner.clone();
            let mut y = make(a, rn);
            probe_start(false, 1_000_000);
            let mut n = 0u64;
            PROBE.with(|p| {
                p.borrow_mut().hook = Some(Box::new(move |_| {
                    n += 1;
                    let mut x = i2.borrow_mut();
                    match op {
                        0 => {
                            if n == at {
                                x.walk()
                            }
                        }
                        1 => {
                            // one report at this evaluation, the rest at the next one
                            if n == at {
                                x.report()
                            }
                            if n == at + 1 {
                                x.walk()
                            }
                        }
                        _ => {
                            if n >= at {
                                x.bare();
                            }
                            if n == at {
                                x.walk()
                            }
                        }
                    }
                }))
            });
            ctx.step();
            y.walk();
            PROBE.with(|p| p.borrow_mut().hook = None);
            if let Some(m) = differs(&y, a, rn) {
                return Err(Fail { key: String::new(), msg: format!("outer: {m}") });
            }
            let x = inner.borrow();
            // at the last evaluation the inner walk of the second kind may be unfinished
            if op == 1 && at == n_ev {
                return Ok(());
            }
            if let Some(m) = differs(&x, b, rn) {
                return Err(Fail { key: String::new(), msg: format!("inner: {m}") });
            }
            ctx.state(hash(&x.bytes()));
            ctx.state(hash(&y.bytes()));
            Ok(())
        })
        .serial(),
        harness("two concurrent walks", move |ctx| {
            let rn = if th { 3 } else { 2 };
            let a = (0, ctx.choose("solver", 7), 0);
            let b = (0, ctx.choose("solver", 7), ctx.choose("variant", 2) + 1);
            let rn = if b.2 == 2 { 1 } else { rn };
            match concurrent(ctx, &[a, b], rn) {
                Ok(ys) => {
                    for (y, sp) in ys.iter().zip([a, b]) {
                        if let Some(m) = differs(y, sp, rn) {
                            return Err(Fail { key: String::new(), msg: m });
                        }
                        ctx.state(hash(&y.bytes()));
                    }
                    Ok(())
                }
                Err(m) => Err(Fail { key: String::new(), msg: m }),
            }
        })
        .dev(if th { 4 } else { 3 })
        .serial(),
        harness("three concurrent walks", move |ctx| {
            let rn = 1;
            let s = ctx.choose("solver", 7);
            let specs = [(0, s, 0), (0, s, 1), (0, ctx.choose("solver", 7), 0)];
            match concurrent(ctx, &specs, rn) {
                Ok(ys) => {
                    for (y, sp) in ys.iter().zip(specs) {
                        if let Some(m) = differs(y, sp, rn) {
                            return Err(Fail { key: String::new(), msg: m });
                        }
                        ctx.state(hash(&y.bytes()));
                    }
                    Ok(())
                }
                Err(m) => Err(Fail { key: String::new(), msg: m }),
            }
        })
        .dev(if th { 3 } else { 2 })
        .serial(),
        harness("preempted at every instruction", move |ctx| {
            // see p_step.rs
            let s = ctx.choose("solver", 7);
            let a: Spec = (1, s, 0);
            let b: Spec = if th { (*ctx.pick("other system", &[1, 2]), ctx.choose("other solver", 7), 2 + ctx.choose("other variant", 3)) } else { (1, s, 2 + s % 3) };
            let shards = 12;
            let shard = ctx.choose("part", shards);
            let o = stepped(a, b, shard, shards, None)?;
            ctx.transitions += o.forks;
            ctx.state(hash(&solo(a, 1)));
            ctx.state(hash(&solo(b, 1)));
            ctx.note(|| format!("{} preemption points among {} instructions, {} of them in this part", o.points, o.traps, o.forks));
            ensure!(o.mine == 0, "the single-stepped walk of {} {a:?} {}", SOLVERS[s], ["", "differs from its solo run", "", "panics"][o.mine]);
            if let Some((at, st)) = o.failed {
                let what = match st {
                    256 => "the preempted walk differs from its solo run".to_string(),
                    512 => "the other walk differs from its solo run".to_string(),
                    768 => "a walk panics".to_string(),
                    1024 | 14 => "the walks do not come to an end".to_string(),
                    st => format!("the process ends with status {st:#x}"),
                };
                crate::fail!("{} {a:?}, preempted after {at} instructions by a walk of {} {b:?}: {what}", SOLVERS[s], SOLVERS[b.1]);
            }
            Ok(())
        }),
        harness("same inputs twice", move |ctx| {
            let sp = (ctx.choose("system", 3), ctx.choose("solver", 7), ctx.choose("variant", 2));
            let rn = ctx.choose("reports", 5) + 1;
            probe_start(false, 1_000_000);
            let (mut x, mut y) = (make(sp, rn), make(sp, rn));
            x.walk();
            y.walk();
            ctx.step();
            ensure!(x.bytes() == y.bytes(), "two identical walks differ: {} and {}", short(&x), short(&y));
            ctx.state(hash(&x.bytes()));
            Ok(())
        }),
    ]
}
