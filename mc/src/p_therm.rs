//! C16 closed thermal systems: conservation, equilibrium, relaxation. C17 reservoirs and prescribed boundaries.
use crate::engine::*;
use crate::refmodel::*;
use crate::p_walk::decade;
use crate::p_wide::Units;
use crate::systems::*;
use crate::{ensure, fail};
use serde::{Deserialize, Serialize};
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;

pub fn mass(c: f64, t: f64) -> ThermalMass {
    ThermalMass { c, state: ThermalMassState { temp: t, dtemp: 0.0 }, history: Default::default() }
}
pub fn res(t: f64) -> ThermalReservoir {
    ThermalReservoir { state: ThermalMassState { temp: t, dtemp: 0.0 }, history: Default::default() }
}
pub fn cnd(h: f64) -> Conductance {
    Conductance { h, state: Default::default(), history: Default::default() }
}
fn sched(ctx: &mut Ctx) -> Vec<f64> {
    ctx.pick("schedule", &[vec![0.0, 0.1, 0.2, 0.3, 0.5], vec![0.05, 1.0], vec![0.0, 0.013, 0.9, 0.91], vec![2.0]]).clone()
}
/// the solver, with tight or loose adaptive settings
fn any(ctx: &mut Ctx, dt: f64, log: bool) -> SolverTypes {
    let s = ctx.choose("solver", 7);
    if s < FIXED {
        return fixed(s, dt);
    }
    let (rtol, mi) = *ctx.pick("tolerance", &[if log { (1e-2, 5u8) } else { (1e-4, 5) }, (1e-1, 1), if log { (1e-3, 2) } else { (1e-6, 2) }]);
    adaptive(s, aconf(dt, dt, mi, rtol, 1e-9, log, log))
}

// a closed ring of four masses and a two-reservoir chain, defined by the harness
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        probe_hit(self.state.time);
        connect_states!(self, (m1, m2, a), (m2, m3, b), (m4, m3, c), (m1, m4, d), (m3, m1, e));
        update_derivs!(self, (m1, m2, a), (m2, m3, b), (m4, m3, c), (m1, m4, d), (m3, m1, e));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct Ring {
    pub solver_type: SolverTypes,
    #[use_state]
    pub m1: ThermalMass,
    #[save_state]
    pub a: Conductance,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub b: Conductance,
    #[use_state]
    pub m3: ThermalMass,
    #[save_state]
    pub c: Conductance,
    #[use_state]
    pub m4: ThermalMass,
    #[save_state]
    pub d: Conductance,
    #[save_state]
    pub e: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

/// prescribed boundary as a function of time
pub fn bound(kind: usize, t: f64) -> f64 {
    match kind {
        1 => 20.0 + 3.0 * t,
        2 => 5.0 - 4.0 * (2.0 * t).cos(),
        3 => 1.0 + t * t * t,
        _ => unreachable!(),
    }
}
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        probe_hit(self.state.time);
        if self.kind > 0 {
            self.r1.state.temp = self.units.amp * bound(self.kind, (self.state.time - self.units.origin) / self.units.tau);
        }
        connect_states!(self, (r1, m1, a), (m1, m2, b), (m2, r2, c));
        update_derivs!(self, (r1, m1, a), (m1, m2, b), (m2, r2, c));
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct TwoRes {
    pub solver_type: SolverTypes,
    pub kind: usize,
    pub units: Units,
    #[use_state]
    pub m1: ThermalMass,
    #[save_state]
    pub a: Conductance,
    #[use_state]
    pub r1: ThermalReservoir,
    #[save_state]
    pub b: Conductance,
    #[use_state]
    pub r2: ThermalReservoir,
    #[use_state]
    pub m2: ThermalMass,
    #[save_state]
    pub c: Conductance,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

/// energies and temperatures of all records (initial state first)
fn conserve(ctx: &mut Ctx, c: &[f64], t0: &[f64], rows: &[Vec<f64>], lam: f64, dt: f64, unit: f64) -> R {
    let e = |t: &[f64]| t.iter().zip(c).map(|(t, c)| t * c).sum::<f64>();
    let mut scale = 0f64;
    for r in rows.iter().map(|r| &r[..]).chain([t0]) {
        scale = scale.max(r.iter().zip(c).map(|(t, c)| (t * c).abs()).sum());
    }
    if !scale.is_finite() {
        return ctx.skip();
    }
    let e0 = e(t0);
    let (lo, hi) = t0.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), t| (a.min(*t), b.max(*t)));
    let mut spread = hi - lo;
    for (k, r) in rows.iter().enumerate() {
        let d = (e(r) - e0).abs();
        ensure!(d <= 1e-10 * scale + 1e-300, "total energy changes from {e0:?} to {:?} at record {k} (temperatures {r:?})", e(r));
        if lam * dt <= 0.4 {
            let slack = 1e-11 * (unit + lo.abs().max(hi.abs()));
            for t in r {
                ensure!(*t >= lo - slack && *t <= hi + slack, "temperature {t:?} at record {k} leaves the initial range {lo}..{hi}");
            }
            let (a, b) = r.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(a, b), t| (a.min(*t), b.max(*t)));
            ensure!(b - a <= spread + slack, "temperatures move apart between records: range {} after {spread} at record {k}", b - a);
            spread = b - a;
        }
        ctx.state(H::new().fs(r).done());
    }
    Ok(())
}

pub fn c16(th: bool) -> Vec<Harness> {
    let cs: &'static [f64] = if th { &[1.0, 0.3, 4.0] } else { &[1.0, 0.3] };
    let hs: &'static [f64] = if th { &[5.0, 0.7, 0.0] } else { &[5.0, 0.7] };
    let ts: &'static [f64] = if th { &[-10.0, 20.0, 95.5, 0.0] } else { &[-10.0, 20.0, 95.5] };
    vec![
        harness("conservation", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let st = any(ctx, dt, false);
            let c = [*ctx.pick("c1", cs), *ctx.pick("c2", cs), *ctx.pick("c3", cs)];
            let h = [*ctx.pick("h12", hs), *ctx.pick("h23", hs)];
            let t = [*ctx.pick("T1", ts), *ctx.pick("T2", ts), *ctx.pick("T3", ts)];
            let rep = sched(ctx);
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep.clone(), ..Default::default() };
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len() && y.m1.history.len() == rep.len() && y.m2.history.len() == rep.len() && y.m3.history.len() == rep.len(), "records missing");
            let rows: Vec<Vec<f64>> = (0..rep.len()).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect();
            let lam = (h[0] / c[0]).max((h[0] + h[1]) / c[1]).max(h[1] / c[2]);
            conserve(ctx, &c, &t, &rows, lam, dt, 1.0)?;
            if c != [y.m1.c, y.m2.c, y.m3.c] || h != [y.h12.h, y.h23.h] {
                fail!("walking changed a capacitance or conductance");
            }
            Ok(())
        }),
        harness("unequal capacities", move |ctx| {
            // one mass so much larger that its own rate of change is tiny: it still takes the heat the others give off
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let st = any(ctx, dt, false);
            let big = *ctx.pick("large capacitance", &[1e3, 1e6, 1e9, 1e12, 1e15]);
            let at = ctx.choose("the large one", 3);
            let t_big = *ctx.pick("its temperature", &[0.0, 1e-3]);
            let small = *ctx.pick("small capacitance", &[1.0, 0.3]);
            let h = [*ctx.pick("h12", &[5.0, 0.7, 1e-6]), *ctx.pick("h23", &[5.0, 1e-3])];
            let mut c = [small; 3];
            let mut t = [95.5, -10.0, 20.0];
            c[at] = big;
            t[at] = t_big;
            let rep = sched(ctx);
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep.clone(), ..Default::default() };
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len() && y.m1.history.len() == rep.len() && y.m2.history.len() == rep.len() && y.m3.history.len() == rep.len(), "records missing");
            let rows: Vec<Vec<f64>> = (0..rep.len()).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect();
            let lam = (h[0] / c[0]).max((h[0] + h[1]) / c[1]).max(h[1] / c[2]);
            conserve(ctx, &c, &t, &rows, lam, dt, 1.0)
        }),
        harness("equilibrium", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let st = any(ctx, dt, false);
            let t = *ctx.pick("T", &[0.0, 0.1, -10.0, 20.0, 95.5, 1e-3, 300.15, 1e9]);
            let c = [*ctx.pick("c1", cs), *ctx.pick("c2", cs), 3.0];
            let h = [*ctx.pick("h12", hs), 2.2];
            let rep = sched(ctx);
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t), m2: mass(c[1], t), m3: mass(c[2], t), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep.clone(), ..Default::default() };
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len(), "records missing");
            for k in 0..rep.len() {
                let r = [y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]];
                ensure!(r == [t; 3], "a system in equilibrium at {t} moves to {r:?}");
                ensure!(y.h12.history.q[k] == 0.0 && y.h23.history.q[k] == 0.0, "heat flows in equilibrium");
                ensure!(y.m1.history.dtemp[k] == 0.0 && y.m2.history.dtemp[k] == 0.0 && y.m3.history.dtemp[k] == 0.0, "a rate of change in equilibrium");
            }
            // and later starts from equilibrium still work: the solver's own settings stay finite
            ensure!(conf_of(&y.solver_type).map_or(true, |c| c.state.dt.is_finite() && c.state.dt > 0.0), "the step size is no longer a number");
            ctx.state(H::new().f(t).fs(&rep).done());
            Ok(())
        }),
        harness("relaxation", move |ctx| {
            // a long time: everything ends at the capacitance-weighted mean
            let st = any(ctx, 0.02, false);
            let c = [*ctx.pick("c1", cs), *ctx.pick("c2", cs), *ctx.pick("c3", cs)];
            let t = [*ctx.pick("T1", ts), *ctx.pick("T2", ts), *ctx.pick("T3", ts)];
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), h12: cnd(5.0), h23: cnd(3.0), t_report: vec![0.0, 10.0, 60.0], ..Default::default() };
            ctx.step();
            y.walk();
            let rows: Vec<Vec<f64>> = (0..3).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect();
            let lam = (5.0 / c[0]).max(8.0 / c[1]).max(3.0 / c[2]);
            conserve(ctx, &c, &t, &rows, lam, 0.02, 1.0)?;
            let mean = (c[0] * t[0] + c[1] * t[1] + c[2] * t[2]) / (c[0] + c[1] + c[2]);
            // slowest time constant of these networks is below 2 s
            for x in &rows[2] {
                ensure!((x - mean).abs() <= 1e-6, "after 60 s a temperature is {x}, equilibrium is {mean}");
            }
            Ok(())
        }),
        harness("other magnitudes", move |ctx| {
            // in other units of time, temperature and heat, away from the time origin
            let tau = decade(ctx, "unit of time", false);
            let amp = *ctx.pick("unit of temperature", if th { &[1.0, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12][..] } else { &[1.0, 1e-8, 1e8][..] });
            let heat = *ctx.pick("unit of capacitance", if th { &[1.0, 1e-12, 1e-6, 1e-3, 1e3, 1e6, 1e12][..] } else { &[1.0, 1e-7, 1e7][..] });
            let dt = *ctx.pick("dt", &[0.005, 0.04]) * tau;
            let st = any(ctx, dt, false);
            let c = ctx.pick("c", &[[1.0, 0.3, 4.0], [2.0, 2.0, 2.0]]).map(|c| c * heat);
            let h = ctx.pick("h", &[[5.0, 0.7], [0.0, 3.0]]).map(|h| h * heat / tau);
            let t = ctx.pick("T", &[[-10.0, 20.0, 95.5], [-1.0, 1.0, -1.0], [3.0, 3.0, 0.0], [-5.0, -5.25, -90.0], [0.5, 0.0004, 0.0]]).map(|t| t * amp);
            let t0 = *ctx.pick("start", &[0.0, -3.0, 1e5]) * tau;
            let rep: Vec<f64> = [0.1, 0.2, 0.207, 0.5].iter().map(|r| t0 + r * tau).collect();
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep.clone(), ..Default::default() };
            y.state.time = t0;
            ctx.step();
            y.walk();
            let n = rep.len();
            ensure!(y.history.len() == n && y.m1.history.len() == n && y.m2.history.len() == n && y.m3.history.len() == n, "records missing");
            let rows: Vec<Vec<f64>> = (0..n).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect();
            let lam = (h[0] / c[0]).max((h[0] + h[1]) / c[1]).max(h[1] / c[2]);
            conserve(ctx, &c, &t, &rows, lam, dt, amp)?;
            if rows[n - 1] == t && h[0] > 0.0 && t[0] != t[1] {
                fail!("temperatures {t:?} do not move");
            }
            Ok(())
        }),
        harness("many reports", move |ctx| {
            let st = any(ctx, 0.04, false);
            let n = *ctx.pick("reports", if th { &[100, 300, 1100, 5000][..] } else { &[100, 300, 1100][..] });
            let per = *ctx.pick("spacing", &[0.04, 0.013, 0.1]);
            let c = *ctx.pick("c", &[[1.0, 0.3, 4.0], [2.0, 2.0, 2.0]]);
            let h = *ctx.pick("h", &[[5.0, 0.7], [0.01, 0.02]]);
            let t = *ctx.pick("T", &[[-10.0, 20.0, 95.5], [-1.0, 1.0, -1.0], [3.0, 3.0, 0.0], [290.0, 300.0, 310.0]]);
            let t0 = *ctx.pick("start", &[0.0, -7.0]);
            let rep: Vec<f64> = (1..=n).map(|k| t0 + per * k as f64).collect();
            let mut y = System3TM { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep, ..Default::default() };
            y.state.time = t0;
            ctx.step();
            y.walk();
            ensure!(y.history.len() == n && y.m1.history.len() == n && y.m2.history.len() == n && y.m3.history.len() == n, "records missing");
            let rows: Vec<Vec<f64>> = (0..n).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect();
            let lam = (h[0] / c[0]).max((h[0] + h[1]) / c[1]).max(h[1] / c[2]);
            conserve(ctx, &c, &t, &rows, lam, 0.04, 1.0)
        }),
        harness("ring of four", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let st = any(ctx, dt, false);
            let c = [*ctx.pick("c1", cs), 2.0, *ctx.pick("c3", cs), 1.3];
            let h = [*ctx.pick("h", hs), 1.0, *ctx.pick("h", hs), 0.4, 2.0];
            let t = [*ctx.pick("T1", ts), *ctx.pick("T2", ts), 4.0, -3.0];
            let rep = sched(ctx);
            let mut y = Ring { solver_type: st, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), m3: mass(c[2], t[2]), m4: mass(c[3], t[3]), a: cnd(h[0]), b: cnd(h[1]), c: cnd(h[2]), d: cnd(h[3]), e: cnd(h[4]), t_report: rep.clone(), state: Default::default(), history: Default::default() };
            probe_start(false, 2_000_000);
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len(), "records missing");
            let rows: Vec<Vec<f64>> = (0..rep.len()).map(|k| vec![y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k], y.m4.history.temp[k]]).collect();
            let lam = ((h[0] + h[3] + h[4]) / c[0]).max((h[0] + h[1]) / c[1]).max((h[1] + h[2] + h[4]) / c[2]).max((h[2] + h[3]) / c[3]);
            conserve(ctx, &c, &t, &rows, lam, dt, 1.0)
        }),
    ]
}

/// the walk the chosen method makes on y' = f(t, y): (time, states) at every report. For adaptive solvers each logged
/// step is recomputed from the state logged before it (`at`: where the two masses are among the states)
fn reference(st: &SolverTypes, f: &dyn Fn(f64, &Y) -> Y, y0: &Y, rep: &[f64], at: [usize; 2]) -> Result<Vec<(f64, Y)>, Fail> {
    reference_in(st, f, &Units::default(), y0, rep, at)
}
/// the same started at `u.origin`, in the given units
fn reference_in(st: &SolverTypes, f: &dyn Fn(f64, &Y) -> Y, u: &Units, y0: &Y, rep: &[f64], at: [usize; 2]) -> Result<Vec<(f64, Y)>, Fail> {
    let t0 = u.origin;
    match st {
        SolverTypes::EulerFixed { dt } => Ok(walk_fixed(0, f, t0, y0, *dt, rep)),
        SolverTypes::HeunsMethod { dt } => Ok(walk_fixed(1, f, t0, y0, *dt, rep)),
        SolverTypes::MidpointMethod { dt } => Ok(walk_fixed(2, f, t0, y0, *dt, rep)),
        SolverTypes::RalstonsMethod { dt } => Ok(walk_fixed(3, f, t0, y0, *dt, rep)),
        SolverTypes::RK4Fixed { dt } => Ok(walk_fixed(4, f, t0, y0, *dt, rep)),
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => {
            let tab = tableau(if matches!(st, SolverTypes::RK23BogackiShampine(_)) { 5 } else { 6 });
            let (mut t, mut y, mut k) = (t0, *y0, 0);
            let mut out = vec![];
            for r in rep {
                while k < c.history.len() && t < *r - 1e-12 * (u.tau + r.abs()) {
                    let h = c.history.dt[k];
                    let w = add(&y, &rk(&tab, f, t, &y, h).0);
                    let l = &c.history.states[k];
                    y = [l[at[0]], l[at[1]], 0., 0., 0., 0.];
                    if !close_y(&y.map(|v| v / u.amp), &w.map(|v| v / u.amp), 1e-9) {
                        return Err(Fail { key: String::new(), msg: format!("step {k} from {t} by {h} leads to {:?}, the method applied to the driven problem gives {:?}", &y[..2], &w[..2]) });
                    }
                    t += h;
                    k += 1;
                }
                out.push((t, y));
            }
            Ok(out)
        }
    }
}

/// two masses between two reservoirs, started at `u.origin`, `rep` after the start in units of time
fn driven(ctx: &mut Ctx, st: SolverTypes, kind: usize, u: Units, heat: f64, rep: &[f64]) -> R {
    let Units { tau, amp, origin } = u;
    let (c, h) = *ctx.pick("network", &[([1.0, 0.3], [5.0, 0.7, 1.5]), ([2.0, 2.0], [2.0, 2.0, 0.0]), ([0.3, 4.0], [0.7, 0.0, 9.0])]);
    let (c, h) = (c.map(|c| c * heat), h.map(|h| h * heat / tau));
    let (t, r) = *ctx.pick("temperatures", &[([3.0, 7.0], [55.5, 4.5]), ([-5.0, 0.0], [-0.25, -4.0]), ([4.0, 4.0], [0.0, 0.0]), ([2.0, 290.0], [0.0005, -1e3])]);
    let (t, r) = (t.map(|t| t * amp), r.map(|t| t * amp));
    let at: Vec<f64> = rep.iter().map(|r| origin + r * tau).collect();
    let n = at.len();
    let mut y = TwoRes { solver_type: st, kind, units: u, m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), r1: res(r[0]), r2: res(r[1]), a: cnd(h[0]), b: cnd(h[1]), c: cnd(h[2]), t_report: at.clone(), state: SystemState { i: 0, time: origin }, history: Default::default() };
    probe_start(false, 2_000_000);
    ctx.step();
    y.walk();
    ensure!(y.history.len() == n && y.r1.history.len() == n && y.r2.history.len() == n && y.m1.history.len() == n && y.m2.history.len() == n, "records missing");
    let edge = |t: f64| if kind == 0 { r[0] } else { amp * bound(kind, (t - origin) / tau) };
    let f = |t: f64, y: &Y| -> Y {
        let (a, b, e) = (h[0] * (edge(t) - y[0]), h[1] * (y[0] - y[1]), h[2] * (y[1] - r[1]));
        [(a - b) / c[0], (b - e) / c[1], 0., 0., 0., 0.]
    };
    let want = reference_in(&y.solver_type, &f, &u, &[t[0], t[1], 0., 0., 0., 0.], &at, [0, 3])?;
    for k in 0..n {
        let tk = y.history.time[k];
        ensure!((tk - at[k]).abs() <= 1e-12 * (tau + tk.abs()) && (want[k].0 - tk).abs() <= 1e-9 * tau, "record {k} carries time {tk:e}, requested {:e}", at[k]);
        if kind == 0 {
            ensure!(y.r1.history.temp[k] == r[0], "the constant reservoir at {:e} moved to {:e}", r[0], y.r1.history.temp[k]);
        } else {
            ensure!((y.r1.history.temp[k] - edge(tk)).abs() <= 1e-12 * (amp + edge(tk).abs()), "record {k} at {tk:e} shows {:e} at the boundary, prescribed {:e}", y.r1.history.temp[k], edge(tk));
        }
        ensure!(y.r2.history.temp[k] == r[1], "the constant reservoir at {:e} moved to {:e}", r[1], y.r2.history.temp[k]);
        ensure!(y.r1.history.dtemp[k] == 0.0 && y.r2.history.dtemp[k] == 0.0, "a reservoir took a rate of change");
        let g = [y.m1.history.temp[k] / amp, y.m2.history.temp[k] / amp];
        let w = want[k].1.map(|v| v / amp);
        if w.iter().any(|v| v.abs() > 1e12) {
            break;
        }
        ensure!(close_y(&g, &w[..2], 1e-8), "record {k} at {tk:e}: driven temperatures {g:?}, the method gives {:?} (in units of {amp:e})", &w[..2]);
    }
    ctx.state(H::new().f(y.m1.state.temp).f(y.m2.state.temp).f(y.state.time).done());
    Ok(())
}

pub fn c17(th: bool) -> Vec<Harness> {
    let cs: &'static [f64] = if th { &[1.0, 0.3, 2.0] } else { &[1.0, 0.3] };
    let hs: &'static [f64] = if th { &[5.0, 0.7, 0.0] } else { &[5.0, 0.7] };
    let ts: &'static [f64] = if th { &[-10.0, 20.0, 0.0] } else { &[-10.0, 20.0] };
    vec![
        harness("example with boundary", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.017, 0.1]);
            let st = any(ctx, dt, true);
            let c = [*ctx.pick("c2", cs), *ctx.pick("c3", cs)];
            let h = [*ctx.pick("h12", hs), *ctx.pick("h23", hs)];
            let t = [*ctx.pick("T2", ts), 12.0];
            let rep = ctx.pick("schedule", &[vec![0.0, 0.1, 0.2, 0.3, 0.5], vec![0.05, 1.0], vec![0.0, 0.013, 0.9, 0.91]]).clone();
            let mut y = System3TMWithBC { solver_type: st.clone(), m2: mass(c[0], t[0]), m3: mass(c[1], t[1]), h12: cnd(h[0]), h23: cnd(h[1]), t_report: rep.clone(), ..Default::default() };
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len() && y.m1.history.len() == rep.len() && y.m2.history.len() == rep.len() && y.m3.history.len() == rep.len(), "records missing");
            let b = |t: f64| 10.0 + 3.0 * (100.0 * t * t).sin() * (-t / 0.25).exp();
            let start = t;
            let f = |t: f64, y: &Y| -> Y {
                let q12 = h[0] * (b(t) - y[0]);
                let q23 = h[1] * (y[0] - y[1]);
                [(q12 - q23) / c[0], q23 / c[1], 0., 0., 0., 0.]
            };
            let want = reference(&y.solver_type, &f, &[start[0], start[1], 0., 0., 0., 0.], &rep, [1, 2])?;
            for k in 0..rep.len() {
                let tk = y.history.time[k];
                // a record made before any step shows whatever the boundary component held at the start
                if tk > 0.0 {
                    ensure!(close(y.m1.history.temp[k], b(tk), 1e-11), "record {k} at time {tk} shows boundary temperature {:?}, prescribed {:?}", y.m1.history.temp[k], b(tk));
                }
                let r = [y.m2.history.temp[k], y.m3.history.temp[k]];
                ensure!((want[k].0 - tk).abs() <= 1e-9, "record {k} carries time {tk}, the steps lead to {}", want[k].0);
                ensure!(close_y(&r, &want[k].1[..2], 1e-9), "record {k} at {tk}: driven temperatures {r:?}, the method gives {:?}", &want[k].1[..2]);
                ctx.state(H::new().fs(&r).done());
            }
            Ok(())
        }),
        harness("constant reservoirs", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let st = any(ctx, dt, true);
            let c = [*ctx.pick("c1", cs), *ctx.pick("c2", cs)];
            let h = [*ctx.pick("a", hs), *ctx.pick("b", hs), 1.5];
            let t = [*ctx.pick("T1", ts), 7.0];
            let r = [*ctx.pick("R1", &[0.1, -300.0, 1e6]), *ctx.pick("R2", &[55.5, 0.0])];
            let rep = sched(ctx);
            let pre = if ctx.flag("stale reservoir rate") { 123.0 } else { 0.0 };
            let mut y = TwoRes { solver_type: st.clone(), kind: 0, units: Units::default(), m1: mass(c[0], t[0]), m2: mass(c[1], t[1]), r1: res(r[0]), r2: res(r[1]), a: cnd(h[0]), b: cnd(h[1]), c: cnd(h[2]), t_report: rep.clone(), state: Default::default(), history: Default::default() };
            y.r1.state.dtemp = pre;
            probe_start(false, 2_000_000);
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len() && y.r1.history.len() == rep.len() && y.r2.history.len() == rep.len(), "records missing");
            let f = |_t: f64, y: &Y| -> Y {
                let (a, b, e) = (h[0] * (r[0] - y[0]), h[1] * (y[0] - y[1]), h[2] * (y[1] - r[1]));
                [(a - b) / c[0], (b - e) / c[1], 0., 0., 0., 0.]
            };
            let want = reference(&y.solver_type, &f, &[t[0], t[1], 0., 0., 0., 0.], &rep, [0, 3])?;
            for k in 0..rep.len() {
                ensure!(y.r1.history.temp[k] == r[0] && y.r2.history.temp[k] == r[1], "reservoir temperatures {:?}, {:?} at record {k}, set to {r:?}", y.r1.history.temp[k], y.r2.history.temp[k]);
                let g = [y.m1.history.temp[k], y.m2.history.temp[k]];
                if want[k].1.iter().any(|v| v.abs() > 1e12) {
                    break;
                }
                ensure!(close_y(&g, &want[k].1[..2], 1e-9), "record {k}: driven temperatures {g:?}, the method gives {:?}", &want[k].1[..2]);
                ctx.state(H::new().fs(&g).done());
            }
            ensure!(y.r1.state.temp == r[0] && y.r2.state.temp == r[1], "a reservoir's temperature changed");
            Ok(())
        }),
        harness("prescribed and constant", move |ctx| {
            let dt = *ctx.pick("dt", &[0.005, 0.04, 0.3]);
            let kind = ctx.choose("boundary", 3) + 1;
            let st = any(ctx, dt, true);
            let c = [*ctx.pick("c1", cs), *ctx.pick("c2", cs)];
            let h = [*ctx.pick("a", hs), *ctx.pick("b", hs), 1.5];
            let r2 = 4.5;
            let rep = sched(ctx);
            let mut y = TwoRes { solver_type: st.clone(), kind, units: Units::default(), m1: mass(c[0], 3.0), m2: mass(c[1], 7.0), r1: res(-99.0), r2: res(r2), a: cnd(h[0]), b: cnd(h[1]), c: cnd(h[2]), t_report: rep.clone(), state: Default::default(), history: Default::default() };
            probe_start(false, 2_000_000);
            ctx.step();
            y.walk();
            ensure!(y.history.len() == rep.len() && y.r1.history.len() == rep.len() && y.r2.history.len() == rep.len(), "records missing");
            let f = |t: f64, y: &Y| -> Y {
                let (a, b, e) = (h[0] * (bound(kind, t) - y[0]), h[1] * (y[0] - y[1]), h[2] * (y[1] - r2));
                [(a - b) / c[0], (b - e) / c[1], 0., 0., 0., 0.]
            };
            let want = reference(&y.solver_type, &f, &[3.0, 7.0, 0., 0., 0., 0.], &rep, [0, 3])?;
            for k in 0..rep.len() {
                let tk = y.history.time[k];
                if tk > 0.0 {
                    ensure!(close(y.r1.history.temp[k], bound(kind, tk), 1e-12), "record {k} at {tk} shows {:?} at the boundary, prescribed {:?}", y.r1.history.temp[k], bound(kind, tk));
                }
                ensure!(y.r2.history.temp[k] == r2, "the constant reservoir moved to {:?}", y.r2.history.temp[k]);
                let g = [y.m1.history.temp[k], y.m2.history.temp[k]];
                ensure!((want[k].0 - tk).abs() <= 1e-9, "record {k} carries time {tk}, the steps lead to {}", want[k].0);
                if want[k].1.iter().any(|v| v.abs() > 1e12) {
                    break;
                }
                ensure!(close_y(&g, &want[k].1[..2], 1e-9), "record {k} at {tk}: driven temperatures {g:?}, the method gives {:?}", &want[k].1[..2]);
                ctx.state(H::new().fs(&g).done());
            }
            Ok(())
        }),
        harness("other magnitudes", move |ctx| {
            // in other units of time, temperature and heat, away from the time origin
            let tau = decade(ctx, "unit of time", false);
            let (amp, heat) = *ctx.pick("units of temperature and capacitance", if th { &[(1.0, 1.0), (1e-12, 1e12), (1e-6, 1e-6), (1e-3, 1.0), (1e3, 1e-12), (1e6, 1e6), (1e12, 1e3)][..] } else { &[(1.0, 1.0), (1e-8, 1e7), (1e8, 1e-7)][..] });
            let kind = ctx.choose("boundary (0: constant)", 4);
            let dt = *ctx.pick("dt", &[0.005, 0.04]) * tau;
            let st = any(ctx, dt, true);
            let t0 = *ctx.pick("start", &[0.0, -3.0, 1e4]) * tau;
            let u = Units { tau, amp, origin: t0 };
            driven(ctx, st, kind, u, heat, &[0.1, 0.2, 0.207, 0.5])
        }),
        harness("many reports", move |ctx| {
            let kind = ctx.choose("boundary (0: constant)", 4);
            let st = any(ctx, 0.04, true);
            let n = *ctx.pick("reports", if th { &[100, 300, 1100][..] } else { &[50, 250][..] });
            let per = *ctx.pick("spacing", &[0.04, 0.1]);
            let origin = *ctx.pick("start", &[0.0, -7.0]);
            let rep: Vec<f64> = (1..=n).map(|k| per * k as f64).collect();
            driven(ctx, st, kind, Units { tau: 1.0, amp: 1.0, origin }, 1.0, &rep)
        }),
        harness("reservoir operations", move |ctx| {
            // any sequence of derivative operations leaves the temperature alone and, once set, the rate at zero
            let mut r = res(*ctx.pick("temperature", &[0.0, -40.0, 1e300]));
            let t = r.state();
            let n = if th { 5 } else { 4 };
            for _ in 0..n {
                ctx.step();
                match ctx.choose("op", 5) {
                    0 => r.set_deriv(*ctx.pick("rate", &[5.0, -1e300, f64::INFINITY])),
                    1 => {
                        let mut c = cnd(3.0);
                        c.set_flow(&r, &mass(1.0, -5.0));
                        let v = c.flow() / r.storage();
                        r.step_deriv(-v);
                    }
                    2 => {
                        r.set_deriv(7.0);
                        ensure!(r.deriv() == 0.0, "a reservoir took a rate of change");
                    }
                    3 => r.save_state(),
                    _ => r = r.clone(),
                }
                ensure!(r.state() == t && r.storage() == f64::INFINITY && r.deriv() == 0.0, "reservoir at {:?} with rate {:?}, storage {:?}", r.state(), r.deriv(), r.storage());
                ctx.state(H::new().f(r.state()).f(r.deriv()).u(r.history.len() as u64).done());
            }
            Ok(())
        }),
    ]
}
