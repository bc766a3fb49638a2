//! C24 nothing left over from earlier work influences a walk, and a walk leaves the problem as it was. C25 convergence to the
//! true solution. C26 independence of units, time origin and layout.
use crate::engine::*;
use crate::p_therm::{bound, cnd, mass, res, TwoRes};
use crate::refmodel::*;
use crate::systems::*;
use crate::ensure;
use dess::prelude::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- C24
/// what a walk leaves: final states and derivatives, the records it appended, the solver's memory, and its log
#[derive(PartialEq, Debug)]
struct Result_ {
    now: Vec<f64>,
    i: usize,
    rows: Vec<Vec<f64>>,
    flows: Vec<Vec<f64>>,
    mem: Option<(f64, u8, Option<f64>, Option<f64>)>,
    log: Vec<(f64, u8, Option<f64>, Option<f64>, f64, Vec<f64>)>,
}
/// everything that describes the problem rather than its progress
#[derive(PartialEq, Debug)]
struct Problem {
    solver: String,
    params: Vec<f64>,
    rep: Vec<f64>,
}
trait Subject {
    /// `at`: the instant the leftover records, log entries and error values belong to
    fn dirty(&mut self, bits: usize, value: f64, at: f64);
    /// put states, time, position and step size back by hand, leaving everything else
    fn rewind(&mut self, to: &dyn Subject);
    /// states, time, report position, adaptive step size
    fn start(&self) -> (Vec<f64>, SystemState, Option<f64>);
    fn walk_(&mut self);
    fn eval(&mut self);
    fn result(&self, from: usize, log_from: usize) -> Result_;
    fn problem(&self) -> Problem;
    fn records(&self) -> usize;
    fn logged(&self) -> usize;
}
fn st_key(s: &SolverTypes) -> String {
    let mut s = s.clone();
    if let SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) = &mut s {
        c.state = Default::default();
        c.history = Default::default();
    }
    format!("{s:?}")
}
fn dirty_solver(s: &mut SolverTypes, bits: usize, at: f64) {
    if let SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) = s {
        if bits & 8 != 0 {
            c.state.n_iter = 3;
            c.state.norm_err = Some(0.5);
            c.state.norm_err_rel = Some(1e-9);
            c.state.t_curr = if at == 0.0 { 0.0 } else { 77.0 };
        }
        if bits & 16 != 0 {
            for k in 0..3 {
                c.history.push(SolverState { dt: 0.5 + k as f64, n_iter: 2, norm_err: None, norm_err_rel: Some(4.0), t_curr: if at == 0.0 { 0.0 } else { at + 6.0 }, states: vec![1.0; k] });
            }
        }
        if bits & 32 != 0 {
            c.state.states = vec![5.0; 7];
        }
    }
}
macro_rules! subject {
    ($t:ty, [$($m:ident: $x:ident $dx:ident),*], [$($h:ident),*], $params:expr) => {
        impl Subject for $t {
            fn rewind(&mut self, to: &dyn Subject) {
                let (x, st, dt) = to.start();
                let mut x = x.into_iter();
                $(self.$m.state.$x = x.next().unwrap();)*
                self.state = st;
                if let (Some(dt), SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c)) = (dt, &mut self.solver_type) {
                    c.state.dt = dt;
                }
            }
            fn start(&self) -> (Vec<f64>, SystemState, Option<f64>) {
                (vec![$(self.$m.state.$x),*], self.state, conf_of(&self.solver_type).map(|c| c.state.dt))
            }
            fn dirty(&mut self, bits: usize, value: f64, at: f64) {
                if bits & 1 != 0 {
                    let mut _v = value;
                    $(self.$m.state.$dx = _v; _v *= -1.7;)*
                }
                if bits & 2 != 0 {
                    $(self.$h.state.q = 10.0 * value;)*
                }
                if bits & 4 != 0 {
                    // earlier records, not all of one length
                    self.history.push(SystemState { i: 5, time: at });
                    self.history.push(if at == 0.0 { self.state } else { SystemState { i: 6, time: at + 1.0 } });
                    $(let _s = self.$m.state; self.$m.history.push(_s); self.$m.history.push(_s);)*
                    $(let _s = self.$h.state; self.$h.history.push(_s); self.$h.history.push(_s);)*
                }
                dirty_solver(&mut self.solver_type, bits, at);
            }
            fn walk_(&mut self) { self.walk() }
            fn eval(&mut self) { self.update_derivs() }
            fn result(&self, from: usize, log_from: usize) -> Result_ {
                let c = conf_of(&self.solver_type);
                Result_ {
                    now: vec![self.state.time, $(self.$m.state.$x, self.$m.state.$dx),*],
                    i: self.state.i,
                    rows: (from..self.history.len()).map(|k| vec![self.history.time[k], self.history.i[k] as f64, $(self.$m.history.$x[k], self.$m.history.$dx[k]),*]).collect(),
                    flows: vec![$(self.$h.history.q[from..].to_vec()),*],
                    mem: c.map(|c| (c.state.dt, c.state.n_iter, c.state.norm_err, c.state.norm_err_rel)),
                    log: c.map_or(vec![], |c| (log_from..c.history.len()).map(|k| (c.history.dt[k], c.history.n_iter[k], c.history.norm_err[k], c.history.norm_err_rel[k], c.history.t_curr[k], c.history.states[k].clone())).collect()),
                }
            }
            fn problem(&self) -> Problem {
                let f: fn(&$t) -> Vec<f64> = $params;
                Problem { solver: st_key(&self.solver_type), params: f(self), rep: self.t_report.clone() }
            }
            fn records(&self) -> usize { self.history.len() }
            fn logged(&self) -> usize { conf_of(&self.solver_type).map_or(0, |c| c.history.len()) }
        }
    };
}
subject!(GenSys, [n0: x dx, n1: x dx, n2: x dx, n3: x dx, n4: x dx, n5: x dx], [], |s| [s.rhs.p.clone(), vec![s.rhs.kind as f64], s.nodes().iter().map(|n| n.cap).collect()].concat());
subject!(System3TM, [m1: temp dtemp, m2: temp dtemp, m3: temp dtemp], [h12, h23], |s| vec![s.m1.c, s.m2.c, s.m3.c, s.h12.h, s.h23.h]);
subject!(System3TMWithBC, [m1: temp dtemp, m2: temp dtemp, m3: temp dtemp], [h12, h23], |s| vec![s.m2.c, s.m3.c, s.h12.h, s.h23.h]);
subject!(TwoRes, [m1: temp dtemp, m2: temp dtemp, r1: temp dtemp, r2: temp dtemp], [a, b, c], |s| vec![s.m1.c, s.m2.c, s.a.h, s.b.h, s.c.h, s.kind as f64]);

pub fn c24(th: bool) -> Vec<Harness> {
    fn make(ctx: &mut Ctx, th: bool) -> (Box<dyn Fn() -> Box<dyn Subject>>, usize) {
        let s = ctx.choose("solver", 7);
        let dt = *ctx.pick("dt", &[0.01, 0.07]);
        let st = if s < FIXED {
            fixed(s, dt)
        } else {
            let (rt, at, mi) = *ctx.pick("settings", &[(1e-3, 1e-9, 5u8), (1e-6, 1e-4, 2), (1e-2, 0.0, 1)]);
            let log = ctx.choose("log", 3);
            adaptive(s, aconf(dt, 0.4, mi, rt, at, log > 0, log > 1))
        };
        let rep = ctx.pick("schedule", &[vec![0.0, 0.1, 0.25, 0.5], vec![0.3], vec![-1.0, 0.0, 0.07, 0.14]]).clone();
        let sys = ctx.choose("system", if th { 9 } else { 7 });
        let mk: Box<dyn Fn() -> Box<dyn Subject>> = match sys {
            0 => Box::new(move || Box::new(System3TM { solver_type: st.clone(), t_report: rep.clone(), ..Default::default() })),
            1 => Box::new(move || Box::new(System3TMWithBC { solver_type: st.clone(), t_report: rep.clone(), ..Default::default() })),
            2 | 3 => {
                let kind = if sys == 2 { 0 } else { 2 };
                Box::new(move || Box::new(TwoRes { solver_type: st.clone(), kind, m1: mass(1.0, 20.0), m2: mass(0.5, 4.0), r1: res(if kind > 0 { bound(kind, 0.0) } else { 30.0 }), r2: res(-5.0), a: cnd(2.0), b: cnd(3.0), c: cnd(0.5), t_report: rep.clone(), ..Default::default() }))
            }
            k => {
                let rhs = match k {
                    4 => Rhs { kind: SMOOTH, p: vec![0.8, 0.5] },
                    5 => Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] },
                    6 => Rhs { kind: ZERO, p: vec![] },
                    7 => Rhs { kind: STIFF, p: vec![25.0] },
                    _ => Rhs { kind: JUMP, p: vec![0.12, 1.0, -3.0] },
                };
                Box::new(move || Box::new(gen_sys(st.clone(), rhs.clone(), 0.0, &[0.3, -1.2, 2.0, 0.0, -0.4, 1.1], rep.clone())))
            }
        };
        (mk, s)
    }
    vec![
        harness("leftovers", move |ctx| {
            let (mk, s) = make(ctx, th);
            let bits = 1 + ctx.choose("leftovers (derivatives, flows, records, solver state, log, logged states) - 1", if s < FIXED { 7 } else { 63 });
            let value = if bits & 3 != 0 { *ctx.pick("size of the leftovers", &[1e3, 1e-9, 1e-310, 1e200, f64::INFINITY, f64::NAN]) } else { 0.0 };
            let mut clean = mk();
            let mut used = mk();
            let at = if bits & 0b011100 != 0 { *ctx.pick("their instant", &[3.0, 0.0]) } else { 3.0 };
            used.dirty(bits, value, at);
            let (from, log_from) = (used.records(), used.logged());
            let before = used.problem();
            probe_start(false, 1_000_000);
            ctx.step();
            clean.walk_();
            used.walk_();
            let (a, b) = (clean.result(0, 0), used.result(from, log_from));
            // records made before any step show the derivatives and flows the system came with
            let (mut a, mut b) = (a, b);
            for r in [&mut a, &mut b] {
                let t0 = r.rows.iter().filter(|x| x[0] <= 0.0).count();
                for x in r.rows.iter_mut().take(t0) {
                    for k in (3..x.len()).step_by(2) {
                        x[k] = 0.0;
                    }
                }
                for f in r.flows.iter_mut() {
                    f.iter_mut().take(t0).for_each(|q| *q = 0.0);
                }
            }
            ctx.state(H::new().fs(&b.now).u(bits as u64).done());
            ensure!(a == b, "leftovers {bits:06b} change the walk: {b:?} instead of {a:?}");
            ensure!(before == used.problem(), "walking changed the problem: {:?} before, {:?} after", before, used.problem());
            Ok(())
        }),
        harness("walked, put back by hand, walked again", move |ctx| {
            // every leftover a real run makes, of whole and of partial runs
            let (mk, _) = make(ctx, th);
            let fresh = mk();
            let mut clean = mk();
            let mut used = mk();
            probe_start(false, 1_000_000);
            ctx.step();
            let rounds = 1 + ctx.choose("runs before-1", 2);
            for _ in 0..rounds {
                used.walk_();
                used.rewind(&*fresh);
            }
            let (from, log_from) = (used.records(), used.logged());
            clean.walk_();
            used.walk_();
            let (mut a, mut b) = (clean.result(0, 0), used.result(from, log_from));
            for r in [&mut a, &mut b] {
                let t0 = r.rows.iter().filter(|x| x[0] <= 0.0).count();
                for x in r.rows.iter_mut().take(t0) {
                    for k in (3..x.len()).step_by(2) {
                        x[k] = 0.0;
                    }
                }
                for f in r.flows.iter_mut() {
                    f.iter_mut().take(t0).for_each(|q| *q = 0.0);
                }
            }
            ctx.state(H::new().fs(&b.now).u(rounds as u64).done());
            ensure!(a == b, "walked again from the same start after {rounds} runs: {b:?} instead of {a:?}");
            Ok(())
        }),
        harness("evaluating the model twice", move |ctx| {
            // evaluating the derivatives again without moving changes nothing, at any point of a run
            let (mk, _) = make(ctx, th);
            let n = 1 + ctx.choose("times-1", 3);
            let walk = ctx.flag("after a walk");
            let mut y = mk();
            probe_start(false, 1_000_000);
            ctx.step();
            if walk {
                y.walk_();
            }
            y.eval();
            let (one, p) = (y.result(0, 0), y.problem());
            for _ in 0..n {
                y.eval();
            }
            ctx.state(H::new().fs(&one.now).u(n as u64).done());
            ensure!(y.result(0, 0) == one && y.problem() == p, "evaluating the derivatives {n} more times changes the system: {:?} instead of {one:?}", y.result(0, 0));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C25
/// systems with known solutions: right-hand side, initial state, exact solution
fn known(k: usize, w: f64) -> (Rhs, Y, Box<dyn Fn(f64) -> Y>, f64) {
    match k {
        // decay and growth
        0 => (
            Rhs { kind: LINEAR, p: vec![2.0, -w, 0.0, 0.0, 0.5 * w, 0., 0., 0., 0.] },
            [2.0, -1.0, 0., 0., 0., 0.],
            Box::new(move |t| [2.0 * (-w * t).exp(), -(0.5 * w * t).exp(), 0., 0., 0., 0.]),
            w,
        ),
        // oscillator
        1 => (
            Rhs { kind: LINEAR, p: vec![2.0, 0.0, w, -w, 0.0, 0., 0., 0., 0.] },
            [1.0, 0.5, 0., 0., 0., 0.],
            Box::new(move |t| [(w * t).cos() + 0.5 * (w * t).sin(), 0.5 * (w * t).cos() - (w * t).sin(), 0., 0., 0., 0.]),
            w,
        ),
        // logistic growth at three rates
        2 => (
            Rhs { kind: LOGISTIC, p: vec![w] },
            [0.3, 0.8, 0.05, 0., 0., 0.],
            Box::new(move |t| {
                let l = |y0: f64, r: f64| 1.0 / (1.0 + (1.0 / y0 - 1.0) * (-r * t).exp());
                [l(0.3, w), l(0.8, 2.0 * w), l(0.05, 3.0 * w), 0., 0., 0.]
            }),
            3.0 * w,
        ),
        // driven linear system: y' = -w y + 1 + t
        _ => (
            Rhs { kind: LINEAR, p: vec![1.0, -w, 1.0, 1.0] },
            [1.5, 0., 0., 0., 0., 0.],
            Box::new(move |t| {
                // y = (1/w - 1/w^2) + t/w + C exp(-w t)
                let a = 1.0 / w - 1.0 / (w * w);
                [a + t / w + (1.5 - a) * (-w * t).exp(), 0., 0., 0., 0., 0.]
            }),
            w,
        ),
    }
}
fn dist(a: &Y, b: &Y) -> f64 {
    norm(&sub(a, b))
}
pub fn c25(th: bool) -> Vec<Harness> {
    let levels: i32 = if th { 9 } else { 7 };
    vec![
        harness("fixed steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let k = ctx.choose("model", 4);
            let w = *ctx.pick("rate", &[0.5, 1.0, 1.7]);
            let rep = ctx.pick("schedule", &[vec![1.0], vec![0.0, 0.5, 1.0, 2.0], vec![0.3, 0.7, 1.1], vec![0.125, 1.5]]).clone();
            let (rhs, y0, exact, _) = known(k, w);
            let p = tableau(s).order as f64;
            let mut last: Option<Vec<f64>> = None;
            for j in 0..levels {
                let h = 0.125 / 2f64.powi(j);
                let mut sys = gen_sys(fixed(s, h), rhs.clone(), 0.0, &y0, rep.clone());
                probe_start(false, 10_000_000);
                ctx.step();
                sys.walk();
                let e: Vec<f64> = (0..rep.len()).map(|i| dist(&sys.row(i), &exact(rep[i]))).collect();
                ensure!(e.iter().all(|e| e.is_finite()), "error {e:?} at step {h}");
                if let Some(l) = &last {
                    for i in 0..rep.len() {
                        // shortened steps make the last factor of two inexact on irregular schedules
                        let bound = l[i] * 2f64.powf(-(p - 0.5)) + 2e-12;
                        ensure!(e[i] <= bound || l[i] < 1e-9 && e[i] <= 1e-9 * 2f64.powf(-(p - 1.0)).max(0.5), "t={}: halving the step to {h} leaves an error of {:e} (was {:e}), {} is a method of order {p}", rep[i], e[i], l[i], SOLVERS[s]);
                    }
                }
                ctx.state(H::new().fs(&e).done());
                last = Some(e);
            }
            let floor = [1e-2, 1e-4, 1e-4, 1e-4, 1e-8][s];
            ensure!(last.as_ref().unwrap().iter().all(|e| *e <= floor), "errors {last:?} at the smallest step");
            Ok(())
        }),
        harness("fixed steps, cut before every report", move |ctx| {
            // report times that leave the same fraction of a step at every level
            let s = ctx.choose("solver", FIXED);
            let k = ctx.choose("model", 4);
            let w = *ctx.pick("rate", &[0.5, 1.0, 1.7]);
            let f = *ctx.pick("fraction", &[0.001, 0.01, 0.04, 0.1, 0.3, 0.45, 0.6, 0.9, 0.99]);
            let (rhs, y0, exact, _) = known(k, w);
            let p = tableau(s).order as f64;
            let mut last: Option<f64> = None;
            for j in 0..levels - 1 {
                let h = 0.125 / 2f64.powi(j);
                let mut rep = vec![];
                let mut t = 0.0;
                // the position after a cut step shifts the next interval
                for _ in 0..4 {
                    t += 0.375 + f * h;
                    rep.push(t);
                }
                let mut sys = gen_sys(fixed(s, h), rhs.clone(), 0.0, &y0, rep.clone());
                probe_start(false, 10_000_000);
                ctx.step();
                sys.walk();
                let e = (0..rep.len()).map(|i| dist(&sys.row(i), &exact(rep[i]))).fold(0.0, f64::max);
                if let Some(l) = last {
                    ensure!(e <= l * 2f64.powf(-(p - 0.5)) + 2e-12, "with {f} of a step left before every report, halving the step to {h} leaves an error of {e:e} (was {l:e}), {} is a method of order {p}", SOLVERS[s]);
                }
                ctx.state(H::new().f(e).done());
                last = Some(e);
            }
            Ok(())
        }),
        harness("adaptive steps", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let k = ctx.choose("model", 4);
            let w = *ctx.pick("rate", &[0.5, 1.0, 1.7]);
            let rep = ctx.pick("schedule", &[vec![1.0], vec![0.0, 0.5, 1.0, 2.0], vec![0.3, 0.7, 1.1], vec![0.001, 1.5]]).clone();
            let dt0 = *ctx.pick("initial step", &[0.1, 1e-4, 5.0]);
            let dtm = *ctx.pick("largest step", &[0.5, 0.05]);
            let (rhs, y0, exact, l) = known(k, w);
            let end = *rep.last().unwrap();
            let way = 1.001 * (0..2000).map(|i| dist(&exact(end * i as f64 / 2000.0), &exact(end * (i + 1) as f64 / 2000.0))).sum::<f64>();
            for j in 2..=(if th { 10 } else { 8 }) {
                let rtol = 10f64.powi(-j);
                // no log: copying it along makes long runs slow
                let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, 255, rtol, 0.0, false, false)), rhs.clone(), 0.0, &y0, rep.clone());
                probe_start(false, 10_000_000);
                ctx.step();
                sys.walk();
                let steps = probe_evals() as f64 / 4.0;
                // the error of every step is at most rtol times the way it went (the embedded estimate is an overestimate for
                // the solution advanced), and grows with the flow's sensitivity
                for i in 0..rep.len() {
                    let e = dist(&sys.row(i), &exact(rep[i]));
                    let bound = 2.0 * (l * rep[i]).exp() * rtol * way + 1e-16 * steps + 1e-11;
                    ensure!(e <= bound, "t={}: error {e:e} with tolerance {rtol:e} ({steps} steps), at most {bound:e} is due to it", rep[i]);
                    ctx.state(H::new().f(e).f(rtol).done());
                }
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C26
#[common_derives]
#[derive(Default, Copy)]
pub struct Units {
    pub x: f64,
    pub t: f64,
    pub t0: f64,
}
fn model(kind: usize, t: f64, y: [f64; 3]) -> [f64; 3] {
    let [a, b, c] = y;
    match kind {
        0 => [-a + 0.5 * b, a - 2.0 * b + c, 0.3 * b - 0.7 * c],
        1 => [a * (1.0 - b), b * (a - 1.0) - 0.1 * c, 0.2 * a * b - c],
        _ => [(2.0 * t).cos() - a, a * c - 0.5 * b, 0.3 - c * t],
    }
}
trait Lay {
    fn walk_(&mut self) -> Vec<(f64, [f64; 3])>;
    fn rest(&self) -> bool;
}
macro_rules! lay {
    ($name:ident, [$($f:ident),*], [$($z:ident),*]) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                probe_hit(self.state.time);
                let u = self.units;
                let d = model(self.kind, (self.state.time - u.t0) / u.t, [self.a.state.x / u.x, self.b.state.x / u.x, self.c.state.x / u.x]);
                self.a.step_deriv(d[0] * u.x / u.t);
                self.b.step_deriv(d[1] * u.x / u.t);
                self.c.step_deriv(d[2] * u.x / u.t);
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            $(#[use_state] pub $f: Node,)*
            pub kind: usize,
            pub units: Units,
            pub solver_type: SolverTypes,
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        impl Lay for $name {
            fn walk_(&mut self) -> Vec<(f64, [f64; 3])> {
                self.walk();
                (0..self.history.len()).map(|k| (self.history.time[k], [self.a.history.x[k], self.b.history.x[k], self.c.history.x[k]])).collect()
            }
            fn rest(&self) -> bool {
                true $(&& self.$z.state.x == 3.0 * self.units.x && self.$z.state.dx == 0.0 && self.$z.history.x.iter().all(|x| *x == 3.0 * self.units.x))*
            }
        }
        impl $name {
            fn boxed(st: SolverTypes, kind: usize, u: Units, y0: [f64; 3], rep: Vec<f64>) -> Box<dyn Lay> {
                let mut w = $name { solver_type: st, kind, units: u, t_report: rep, ..Default::default() };
                w.state.time = u.t0;
                w.a = node(y0[0]);
                w.b = node(y0[1]);
                w.c = node(y0[2]);
                $(w.$z = node(3.0 * u.x);)*
                Box::new(w)
            }
        }
    };
}
lay!(L0, [a, b, c], []);
lay!(L1, [a, c, b], []);
lay!(L2, [b, a, c], []);
lay!(L3, [b, c, a], []);
lay!(L4, [c, a, b], []);
lay!(L5, [c, b, a], []);
lay!(L6, [z, a, b, c], [z]);
lay!(L7, [a, z, b, c], [z]);
lay!(L8, [a, b, z, c], [z]);
lay!(L9, [a, b, c, z], [z]);
lay!(L10, [z, c, y, b, x, a, w], [w, x, y, z]);
type Boxed = fn(SolverTypes, usize, Units, [f64; 3], Vec<f64>) -> Box<dyn Lay>;
const LAYOUTS: [Boxed; 11] = [L0::boxed, L1::boxed, L2::boxed, L3::boxed, L4::boxed, L5::boxed, L6::boxed, L7::boxed, L8::boxed, L9::boxed, L10::boxed];

pub fn c26(th: bool) -> Vec<Harness> {
    fn go(ctx: &mut Ctx, layout: usize, u: Units, th: bool) -> R {
        let s = ctx.choose("solver", 7);
        let kind = ctx.choose("model", 3);
        let dt = *ctx.pick("dt", &[0.125, 0.01]);
        let rep = ctx.pick("schedule", &[vec![0.0, 0.5, 0.625, 2.0], vec![1.0, 1.1, 1.3, 3.5]]).clone();
        let y0 = *ctx.pick("start", &[[1.5, 0.5, 1.0], [0.0, -0.25, 2.0], [0.0, 1.0, 0.0]]);
        let (rt, at, mi, dtm) = if s < FIXED { (0.0, 0.0, 0, 0.0) } else { *ctx.pick("settings", &[(1e-4, 1e-9, 5u8, 10.0), (1e-2, 1e-3, 1, 0.2), (1e-7, 1e-5, 50, 1.0)]) };
        let st = |u: Units| if s < FIXED { fixed(s, dt * u.t) } else { adaptive(s, aconf(dt * u.t, dtm * u.t, mi, rt, at * u.x, false, false)) };
        let run = |layout: usize, u: Units| {
            let mut y = LAYOUTS[layout](st(u), kind, u, y0.map(|x| x * u.x), rep.iter().map(|r| u.t0 + r * u.t).collect());
            probe_start(false, 1_000_000);
            let rows = y.walk_();
            (rows, probe_evals(), y.rest())
        };
        let _ = th;
        ctx.step();
        let (base, n0, _) = run(0, Units { x: 1.0, t: 1.0, t0: 0.0 });
        let (other, n1, rest) = run(layout, u);
        ensure!(rest, "a component at rest was moved");
        ensure!(base.len() == rep.len() && other.len() == rep.len(), "{} and {} records", base.len(), other.len());
        // adaptive runs may differ when rounding decides about a step; they still agree within the tolerance then
        let tol = if n0 == n1 { 1e-9 } else { 1e-6f64.max(100.0 * rt) };
        for k in 0..rep.len() {
            let (t, y) = (((other[k].0 - u.t0) / u.t), other[k].1.map(|x| x / u.x));
            ensure!((t - base[k].0).abs() <= 1e-9 * (1.0 + u.t0.abs() / u.t), "record {k} is at {t} instead of {}", base[k].0);
            ensure!(close_y(&y, &base[k].1, tol), "record {k} (t={t}): {y:?} instead of {:?}", base[k].1);
        }
        ctx.state(H::new().fs(&other.last().unwrap().1).u(n1).done());
        Ok(())
    }
    vec![
        harness("layout", move |ctx| {
            let l = 1 + ctx.choose("layout-1", LAYOUTS.len() - 1);
            go(ctx, l, Units { x: 1.0, t: 1.0, t0: 0.0 }, th)
        }),
        harness("units and time origin", move |ctx| {
            let x: i32 = *ctx.pick("state unit 2^", &[0, -30, -40, 60, -200, 200]);
            let t: i32 = *ctx.pick("time unit 2^", &[0, -30, 40, -300]);
            let t0: f64 = *ctx.pick("time origin / unit", &[0.0, 1.0, -2.0, 1024.0]);
            let l = *ctx.pick("layout", if th { &[0, 3, 10] } else { &[0] });
            let tu = 2f64.powi(t);
            go(ctx, l, Units { x: 2f64.powi(x), t: tu, t0: t0 * tu }, th)
        }),
    ]
}
