//! C05 step control and C06 step log of the adaptive solvers: a monitor replays every logged run.
use crate::engine::*;
use crate::p_wide::rk_n;
use crate::p_walk::{schedule, smooth, y0_for};
use crate::refmodel::*;
use crate::systems::*;
use crate::{ensure, fail};
use dess::prelude::*;

fn f_of(rhs: &Rhs) -> impl Fn(f64, &Y) -> Y {
    let r = rhs.clone();
    move |t, y| {
        let mut d = [0.0; N];
        rhs_eval(r.kind, &r.p, t, y, &mut d);
        d
    }
}

/// next step size from the errors of an accepted step (None: the controller is not determined by them)
fn next_dt(dt: f64, err: Option<f64>, rel: Option<f64>, rtol: f64, atol: f64) -> Option<f64> {
    let near = |a: f64, b: f64| (a - b).abs() <= 1e-9 * b;
    let e = err?;
    Some(match rel {
        Some(r) => {
            if near(r, rtol) {
                return None;
            }
            if r <= rtol {
                dt * (rtol / r).powf(0.2)
            } else if near(e, atol) {
                return None;
            } else if e <= atol {
                dt * (atol / e).powf(0.2)
            } else {
                dt * 0.25
            }
        }
        None => {
            if near(e, atol) {
                return None;
            }
            if e <= atol {
                dt * (atol / e).powf(0.2)
            } else if atol == 0.0 {
                dt * 0.25
            } else {
                dt * (atol / e).powf(0.25)
            }
        }
    })
}

/// Replays the log of a run entry by entry. `starts`: state and step size before the first entry.
fn monitor(ctx: &mut Ctx, s: usize, rhs: &Rhs, c: &AdaptiveSolverConfig, t0: f64, y0: &Y, dt0: f64, rep: &[f64]) -> R {
    let f = f_of(rhs);
    let fv = move |t: f64, y: &[f64]| f(t, y.try_into().unwrap()).to_vec();
    // rounding of a time far from the model's origin moves the model's argument
    let tau = if rhs.kind == UNITS { rhs.p[0] } else { 1.0 };
    let far = rep.iter().chain([&t0]).fold(0.0f64, |m, t| m.max(t.abs())) / tau;
    monitor_n(ctx, s, &fv, c, t0, y0, dt0, rep, 1e-12 + if far > 1e3 { 4e-15 * far } else { 0.0 })
}
#[allow(clippy::too_many_arguments)]
pub fn monitor_n(ctx: &mut Ctx, s: usize, f: &dyn Fn(f64, &[f64]) -> Vec<f64>, c: &AdaptiveSolverConfig, t0: f64, y0: &[f64], dt0: f64, rep: &[f64], rounding: f64) -> R {
    let tab = tableau(s);
    let (mut t, mut y) = (t0, y0.to_vec());
    let mut cand = Some(dt0);
    let mut ri = 0;
    let h = &c.history;
    let lim = (c.max_iter as usize).max(1);
    for k in 0..h.len() {
        while ri < rep.len() && t >= rep[ri] {
            ri += 1;
        }
        ensure!(ri < rep.len(), "entry {k}: a step is logged after the last report time");
        let (dt, n) = (h.dt[k], h.n_iter[k] as usize);
        ensure!(n >= 1 && n <= lim, "entry {k}: {n} attempts reported, the limit is {}", c.max_iter);
        let rem = rep[ri] - t;
        let tmin = t.abs() * f64::EPSILON;
        if let Some(d0) = cand {
            // attempts
            let mut d = if d0.is_nan() { c.dt_max } else { d0.max(tmin.min(c.dt_max)) }.min(rem).min(c.dt_max);
            let mut sure = true;
            for a in 1..=n {
                let (m, mh) = rk_n(&tab, f, t, &y, d);
                let e = norm(&m.iter().zip(&mh).map(|(a, b)| a - b).collect::<Vec<f64>>());
                let nm = norm(&m);
                let scale = nm.max(norm(&mh)).max(1e-300);
                let noise = rounding * scale;
                let lt = |x: f64, lim: f64, noise: f64| -> Option<bool> {
                    // x <= lim, unless rounding could decide otherwise
                    if (x - lim).abs() <= 1e-7 * lim + noise {
                        if x == 0.0 && lim == 0.0 && noise <= 1e-299 { Some(true) } else { None }
                    } else {
                        Some(x <= lim)
                    }
                };
                let rel_ok = if nm == 0.0 { Some(false) } else { lt(e / nm, c.rtol, noise / nm) };
                let abs_ok = lt(e, c.atol, noise);
                let (rel_ok, abs_ok) = if nm != 0.0 && nm <= noise { (None, abs_ok) } else { (rel_ok, abs_ok) };
                let accept = match (rel_ok, abs_ok) {
                    (Some(true), _) | (_, Some(true)) => Some(true),
                    (Some(false), Some(false)) => Some(a >= lim || d <= tmin),
                    _ => {
                        if a >= lim {
                            Some(true)
                        } else {
                            None
                        }
                    }
                };
                match accept {
                    None => {
                        sure = false;
                        break;
                    }
                    Some(true) => ensure!(a == n, "entry {k} (t={t}): accepted after {n} attempts, but attempt {a} (dt={d:e}, error {e:e}, relative {:e}) already qualifies", e / nm),
                    Some(false) => ensure!(a < n, "entry {k} (t={t}): accepted at attempt {a} of {lim} (dt={d:e}, error {e:e}, relative {:e}) without meeting a tolerance", e / nm),
                }
                if a < n {
                    d = if nm == 0.0 && c.atol > 0.0 { d * (c.atol / e).powf(0.25) } else { d * 0.25 };
                    d = d.max(tmin);
                }
            }
            if sure {
                ensure!((d - dt).abs() <= 1e-6 * d, "entry {k} (t={t}): step size {dt:e}, but {n} attempts starting from {d0:e} (limit {:e}, remaining {rem:e}) lead to {d:e}", c.dt_max);
            }
        }
        ensure!(dt <= c.dt_max * (1.0 + 1e-12) && dt <= rem * (1.0 + 1e-12), "entry {k}: step {dt:e} above the limit {:e} or the remaining {rem:e}", c.dt_max);
        cand = next_dt(dt, h.norm_err[k], h.norm_err_rel[k], c.rtol, c.atol);
        ensure!(h.states[k].len() == y.len(), "entry {k} has {} states", h.states[k].len());
        y = h.states[k].clone();
        ctx.state(H::new().f(t).f(dt).u(n as u64).done());
        t += dt;
    }
    // the step size left for the next step
    if let Some(d) = cand {
        let want = if d.is_nan() { c.dt_max } else { d.min(c.dt_max) };
        let got = c.state.dt.min(c.dt_max);
        let tmin = t.abs() * f64::EPSILON;
        ensure!((got - want).abs() <= 1e-6 * want || (want <= 4.0 * tmin && got <= 4.0 * tmin), "the step size left for the next step is {got:e}, expected {want:e}");
    }
    Ok(())
}

pub fn c05(th: bool) -> Vec<Harness> {
    let vals: &'static [f64] = if th { &[0.0, 1.0, -3.0, 1.001] } else { &[0.0, 1.0, -3.0] };
    let ncell = if th { 5 } else { 4 };
    vec![
        harness("scripted errors", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let (rtol, atol) = *ctx.pick("tolerances", &[(1e-3, 1e-9), (0.3, 1e-9), (1e-3, 0.05), (0.1, 0.02), (0.05, 0.0)]);
            let mi = *ctx.pick("max_iter", &[1u8, 2, 4, 9]);
            let dt0 = *ctx.pick("dt init", &[0.1, 1.0]);
            let dtm = *ctx.pick("dt max", &[0.4, 10.0]);
            let rep = ctx.pick("report", &[vec![1.25], vec![0.0, 0.3, 1.25]]).clone();
            // rates (and the absolute tolerance with them) far below and above one
            let scale = *ctx.pick("scale", &[1.0, 1e-20, 1e15]);
            let atol = atol * scale;
            let mut p = vec![0.25, -0.013731817];
            for _ in 0..ncell {
                p.push(*ctx.pick("cell", vals) * scale);
            }
            let rhs = Rhs { kind: CELLS, p };
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, mi, rtol, atol, true, true)), rhs.clone(), 0.0, &[0.0; N], rep.clone());
            probe_start(false, 100_000);
            ctx.step();
            sys.walk();
            let c = sys.conf().unwrap().clone();
            monitor(ctx, s, &rhs, &c, 0.0, &[0.0; N], dt0, &rep)
        }),
        harness("iteration limits", move |ctx| {
            // a jump right behind the start: no step size meets the tolerance, so the first step takes all attempts there are
            let s = 5 + ctx.choose("solver", 2);
            let mi = *ctx.pick("max_iter", &[0u8, 1, 2, 3, 5, 10, 16, 17, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 254, 255]);
            let dt0 = *ctx.pick("dt init", &[0.1, 3.0]);
            let (rtol, atol) = *ctx.pick("tolerances", &[(1e-6, 0.0), (1e-3, 1e-250)]);
            let j = *ctx.pick("jump", &[(-1.0, 1.0), (1.0, 20.0), (0.0, 1.0)]);
            let rep = vec![0.5, 1.0];
            let rhs = Rhs { kind: JUMP, p: vec![1e-300, j.0, j.1] };
            let mut sys = gen_sys(adaptive(s, aconf(dt0, 10.0, mi, rtol, atol, true, true)), rhs.clone(), 0.0, &[0.0; N], rep.clone());
            probe_start(false, 100_000);
            ctx.step();
            sys.walk();
            let c = sys.conf().unwrap().clone();
            ensure!(c.history.n_iter[0] == mi.max(1), "the first step took {} attempts of {mi} although no step size meets the tolerance", c.history.n_iter[0]);
            monitor(ctx, s, &rhs, &c, 0.0, &[0.0; N], dt0, &rep)
        }),
        harness("smooth and stiff runs", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let rhs = [smooth(), Rhs { kind: STIFF, p: vec![30.0] }, Rhs { kind: LOGISTIC, p: vec![0.6] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: JUMP, p: vec![0.437, 1.0, -40.0] }, Rhs { kind: ZERO, p: vec![] }, Rhs { kind: SPIKE, p: vec![0.3, 0.01, 1e4] }][ctx.choose("model", 7)].clone();
            let t0 = *ctx.pick("t0", &[0.0, -1.0]);
            let (rtol, atol) = *ctx.pick("tolerances", &[(1e-5, 1e-9), (1e-2, 1e-9), (1e-9, 1e-4), (1e-4, 0.0)]);
            let mi = *ctx.pick("max_iter", &[5u8, 0, 1, 2, 40, 255]);
            let dt0 = *ctx.pick("dt init", &[0.1, 1.0, 1e-5]);
            let dtm = *ctx.pick("dt max", &[10.0, 0.15]);
            let rep = schedule(ctx, t0, &[0.0, 0.5], &[0.4, 1.1], if th { 2 } else { 1 });
            if *rep.last().unwrap() <= t0 {
                return ctx.skip();
            }
            let y0 = y0_for(&rhs);
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, mi, rtol, atol, true, true)), rhs.clone(), t0, &y0, rep.clone());
            probe_start(false, 200_000);
            ctx.step();
            sys.walk();
            let c = sys.conf().unwrap().clone();
            monitor(ctx, s, &rhs, &c, t0, &y0, dt0, &rep)
        }),
        harness("tight tolerances", move |ctx| {
            // tolerances so small that a step is tried again although its error looks negligible
            let s = 5 + ctx.choose("solver", 2);
            let rhs = [smooth(), Rhs { kind: LOGISTIC, p: vec![0.6] }, Rhs { kind: STIFF, p: vec![3.0] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }][ctx.choose("model", 4)].clone();
            let t0 = *ctx.pick("t0", &[0.0, -1.0]);
            let (rtol, atol) = *ctx.pick("tolerances", if s == 5 { &[(1e-8, 0.0), (2e-9, 0.0), (1e-9, 1e-12), (0.0, 1e-9)] } else { &[(1e-8, 0.0), (1e-9, 0.0), (1e-10, 1e-13), (0.0, 1e-11)] });
            let mi = *ctx.pick("max_iter", &[3u8, 2, 6, 50]);
            let dt0 = *ctx.pick("dt init", &[0.03, 0.3, 0.007, 1e-3, 1e-5]);
            let dtm = *ctx.pick("dt max", &[10.0, 0.04]);
            let y0 = y0_for(&rhs);
            let rep = if th { vec![t0, t0 + 0.02, t0 + 0.1] } else { vec![t0 + 0.05] };
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, mi, rtol, atol, true, true)), rhs.clone(), t0, &y0, rep.clone());
            probe_start(false, 2_000_000);
            ctx.step();
            sys.walk();
            let c = sys.conf().unwrap().clone();
            monitor(ctx, s, &rhs, &c, t0, &y0, dt0, &rep)
        }),
        other_magnitudes(th),
        crate::p_wide::control(th),
    ]
}

/// the report-to-report run again with other log flags: the same steps
fn same_without_log(full: &GenSys, bare: &GenSys) -> R {
    let (a, b) = (full.conf().unwrap(), bare.conf().unwrap());
    let (ha, hb) = (&a.history, &b.history);
    ensure!(!b.save || (ha.dt == hb.dt && ha.n_iter == hb.n_iter && ha.norm_err == hb.norm_err && ha.norm_err_rel == hb.norm_err_rel), "the steps differ when states are not logged: {:?}, {:?} attempts; {:?}, {:?} attempts", ha.dt, ha.n_iter, hb.dt, hb.n_iter);
    ensure!(a.state.dt == b.state.dt && a.state.n_iter == b.state.n_iter && full.state == bare.state && full.y() == bare.y(), "with other log flags the run ends in {:?} with step {:e} after {} attempts, expected {:?}, {:e}, {}", bare.y(), b.state.dt, b.state.n_iter, full.y(), a.state.dt, a.state.n_iter);
    Ok(())
}
fn other_magnitudes(th: bool) -> Harness {
    harness("other magnitudes", move |ctx| {
        let s = 5 + ctx.choose("solver", 2);
        let m = [smooth(), Rhs { kind: STIFF, p: vec![30.0] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: JUMP, p: vec![0.437, 1.0, -40.0] }, Rhs { kind: CONST, p: vec![0.0, -2.0] }][ctx.choose("model", 5)].clone();
        let e: &[f64] = if th { &[1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6, 1e9, 1e12] } else { &[1e-10, 1e-4, 1.0, 1e3, 1e8] };
        let tau = *ctx.pick("unit of time", e);
        let amp = *ctx.pick("unit of state", e);
        let far = *ctx.pick("start", &[0.0, -2.5, 1e5]);
        let t0 = far * tau;
        let (rtol, atol) = *ctx.pick("tolerances", &[(1e-5, 1e-9), (0.0, 1e-4), (1e-6, 1e-12), (0.3, 0.0), (1e-4, 3e-5)]);
        let (mi, dtm) = *ctx.pick("max_iter, dt max", &[(5u8, 10.0), (1, 0.15), (200, 1e7), (3, 0.4)]);
        let dt0 = *ctx.pick("dt init", &[0.1, 3.0, 1e-6]) * tau;
        if far != 0.0 && (m.kind == JUMP || rtol == 1e-6) {
            // at the resolution of time nothing is determined
            return ctx.skip();
        }
        let rhs = in_units(&m, tau, amp, t0);
        let y0: Y = std::array::from_fn(|i| y0_for(&m)[i] * amp);
        let rep: Vec<f64> = [0.3, 0.31, 1.4].iter().map(|x| t0 + x * tau).collect();
        let mut full = None;
        for (save, states) in [(true, true), (true, false), (false, false)] {
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm * tau, mi, rtol, atol * amp, save, states)), rhs.clone(), t0, &y0, rep.clone());
            probe_start(false, 1_000_000);
            ctx.step();
            sys.walk();
            match &full {
                None => {
                    let c = sys.conf().unwrap().clone();
                    monitor(ctx, s, &rhs, &c, t0, &y0, dt0, &rep)?;
                    full = Some(sys);
                }
                Some(f) => same_without_log(f, &sys)?,
            }
        }
        Ok(())
    })
}

const Y0_: Y = [0.3, -1.2, 2.0, 0.0, -0.4, 1.1];
pub fn c06(th: bool) -> Vec<Harness> {
    vec![harness("log against run", move |ctx| {
        let s = 5 + ctx.choose("solver", 2);
        let rhs = [smooth(), Rhs { kind: STIFF, p: vec![10.0] }, Rhs { kind: LOGISTIC, p: vec![0.6] }, Rhs { kind: JUMP, p: vec![0.437, 1.0, -40.0] }, Rhs { kind: ZERO, p: vec![] }][ctx.choose("model", 5)].clone();
        let t0 = *ctx.pick("t0", &[0.0, -1.7]);
        let (rtol, atol, mi) = *ctx.pick("settings", &[(1e-5, 1e-9, 5u8), (1e-2, 1e-3, 1), (1e-6, 1e-12, 2), (1e-3, 1e-9, 30)]);
        let dt0 = *ctx.pick("dt init", &[0.1, 2.0]);
        let dtm = *ctx.pick("dt max", &[10.0, 0.21]);
        let rep = schedule(ctx, t0, &[0.0, 0.5], &[0.4, 1.1, 0.02], if th { 3 } else { 2 });
        if *rep.last().unwrap() <= t0 {
            return ctx.skip();
        }
        let split = ctx.choose("walk up to report first", rep.len() + 1);
        let y0 = y0_for(&rhs);
        let mut runs = vec![];
        for (save, states) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, mi, rtol, atol, save, states)), rhs.clone(), t0, &y0, rep.clone());
            probe_start(false, 200_000);
            if split > 0 {
                sys.t_report = rep[..split].to_vec();
                ctx.step();
                sys.walk();
                sys.t_report = rep.clone();
            }
            ctx.step();
            sys.walk();
            runs.push(sys);
        }
        let full = &runs[0];
        let h = &full.conf().unwrap().history;
        let tend = full.state.time;
        // entries chain up from the start to the end of the run
        ensure!(!h.is_empty(), "no steps logged");
        ensure!([h.dt.len(), h.n_iter.len(), h.norm_err.len(), h.norm_err_rel.len(), h.t_curr.len(), h.states.len()].iter().all(|l| *l == h.len()), "columns of the log have different lengths");
        let mut t = t0;
        for k in 0..h.len() {
            ensure!((h.t_curr[k] - t).abs() <= 1e-12 * (1.0 + t.abs()), "entry {k} starts at {}, the previous one ended at {t}", h.t_curr[k]);
            t = h.t_curr[k] + h.dt[k];
            ctx.state(H::new().f(t).fs(&h.states[k]).done());
        }
        ensure!((t - tend).abs() <= 1e-12 * (1.0 + t.abs()), "the log ends at {t}, the run at {tend}");
        let sum: f64 = h.dt.iter().sum();
        ensure!((sum - (tend - t0)).abs() <= 1e-10 * (1.0 + sum), "logged steps add up to {sum}, the run covers {}", tend - t0);
        // states reached: at every report time after the start the entry that ends there holds the recorded states
        for (i, r) in rep.iter().enumerate() {
            if *r <= t0 {
                continue;
            }
            let rec = (0..full.history.len()).find(|j| full.history.i[*j] == i + 1 && (full.history.time[*j] - r).abs() < 1e-9);
            let Some(rec) = rec else { continue };
            let e = (0..h.len()).rev().find(|k| h.t_curr[*k] + h.dt[*k] <= r + 1e-12 * (1.0 + r.abs()));
            let Some(e) = e else { fail!("no log entry ends at report time {r}") };
            ensure!(close_y(&h.states[e], &full.row(rec), 1e-12), "entry {e} holds {:?}, the record at {r} {:?}", h.states[e], full.row(rec));
        }
        // consecutive entries: each holds the state reached by its step
        let f = f_of(&rhs);
        let mut y = y0;
        for k in 0..h.len() {
            let want = add(&y, &rk(&tableau(s), &f, h.t_curr[k], &y, h.dt[k]).0);
            ensure!(close_y(&h.states[k], &want, 1e-9), "entry {k} holds {:?}, the step leads to {:?}", h.states[k], want);
            y = std::array::from_fn(|i| h.states[k][i]);
        }
        // flags
        for (j, sys) in runs.iter().enumerate() {
            let c = sys.conf().unwrap();
            let mut a = sys.clone();
            let mut b = full.clone();
            a.solver_type = fixed(0, 1.0);
            b.solver_type = fixed(0, 1.0);
            ensure!(a == b, "the saving flags changed the trajectory");
            ensure!(c.state.dt == full.conf().unwrap().state.dt, "the saving flags changed the step size");
            match j {
                0 => {}
                1 => {
                    ensure!(c.history.len() == h.len() && c.history.dt == h.dt && c.history.t_curr == h.t_curr && c.history.n_iter == h.n_iter && c.history.norm_err == h.norm_err && c.history.norm_err_rel == h.norm_err_rel, "the log without states differs from the log with states");
                    ensure!(c.history.states.len() == h.len() && c.history.states.iter().all(|s| s.is_empty()), "entries hold states although state saving is off");
                }
                _ => ensure!(c.history.is_empty() && c.history.states.is_empty() && c.history.dt.is_empty(), "entries logged although saving is off"),
            }
            match c.dt_mean() {
                Some(m) => {
                    let want = c.history.dt.iter().sum::<f64>() / c.history.dt.len() as f64;
                    ensure!(j < 2 && (m - want).abs() <= 1e-12 * want, "mean step {m}, expected {want}");
                }
                None => ensure!(j >= 2, "no mean step although steps were logged"),
            }
        }
        Ok(())
    }),
    harness("other magnitudes", move |ctx| {
        let s = 5 + ctx.choose("solver", 2);
        let m = [smooth(), Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: STIFF, p: vec![10.0] }, Rhs { kind: ZERO, p: vec![] }][ctx.choose("model", 4)].clone();
        let e: &[f64] = if th { &[1e-12, 1e-9, 1e-6, 1e-4, 1e-2, 1.0, 1e2, 1e4, 1e6, 1e9, 1e12] } else { &[1e-10, 1e-4, 1.0, 1e3, 1e8] };
        let (tau, amp) = (*ctx.pick("unit of time", e), *ctx.pick("unit of state", e));
        let t0 = *ctx.pick("start", &[0.0, -2.5, 1e5]) * tau;
        let (rtol, atol) = *ctx.pick("tolerances", &[(1e-4, 1e-9), (0.0, 1e-3), (0.3, 0.0)]);
        let (mi, dtm) = *ctx.pick("max_iter, dt max", &[(5u8, 10.0), (1, 0.15), (200, 1e7)]);
        let dt0 = *ctx.pick("dt init", &[0.1, 3.0, 1e-6]) * tau;
        let rhs = in_units(&m, tau, amp, t0);
        let y0: Y = std::array::from_fn(|i| y0_for(&m)[i] * amp);
        let rep: Vec<f64> = [0.3, 0.31, 1.4, 3.0].iter().map(|x| t0 + x * tau).collect();
        let mut full: Option<GenSys> = None;
        for (save, states) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm * tau, mi, rtol, atol * amp, save, states)), rhs.clone(), t0, &y0, rep.clone());
            probe_start(false, 1_000_000);
            ctx.step();
            sys.walk();
            let h = &sys.conf().unwrap().history;
            let Some(full) = &full else {
                let f = f_of(&rhs);
                let (mut t, mut y) = (t0, y0);
                let tol = 1e-12 + 1e-15 * t.abs() / tau;
                let mut rec = 0;
                for k in 0..h.len() {
                    ensure!((h.t_curr[k] - t).abs() <= 2.0 * f64::EPSILON * t.abs(), "entry {k} starts at {:e}, the previous one ended at {t:e}", h.t_curr[k]);
                    let z = add(&y, &rk(&tableau(s), &f, t, &y, h.dt[k]).0);
                    ensure!(h.states[k].len() == N, "entry {k} holds {} states", h.states[k].len());
                    let scale = z.iter().fold(amp, |m, v| m.max(v.abs()));
                    ensure!((0..N).all(|i| (h.states[k][i] - z[i]).abs() <= tol * scale), "entry {k} holds {:?}, the step leads to {z:?}", h.states[k]);
                    y = std::array::from_fn(|i| h.states[k][i]);
                    t = h.t_curr[k] + h.dt[k];
                    if t >= rep[rec] {
                        ensure!(sys.row(rec) == y && sys.history.time[rec] == t, "record {rec} holds {:?} at {:e}, the log {y:?} at {t:e}", sys.row(rec), sys.history.time[rec]);
                        rec += 1;
                    }
                }
                ensure!(rec == rep.len() && t == sys.state.time, "the log ends at {t:e}, the run at {:e}", sys.state.time);
                let c = sys.conf().unwrap();
                let mean = h.dt.iter().sum::<f64>() / h.len() as f64;
                ensure!(c.dt_mean().is_some_and(|m| (m - mean).abs() <= 1e-12 * mean), "mean step {:?}, expected {mean:e}", c.dt_mean());
                ctx.state(H::new().fs(&h.dt).done());
                full = Some(sys);
                continue;
            };
            let c = sys.conf().unwrap();
            ensure!(h.len() == if save { full.conf().unwrap().history.len() } else { 0 }, "{} entries with saving {save} and state saving {states}", h.len());
            ensure!(h.states.iter().all(|x| x.is_empty()), "states are logged although saving them is off");
            same_without_log(full, &sys)?;
            ensure!((0..rep.len()).all(|k| sys.row(k) == full.row(k)), "the flags change the records");
            let (a, b) = (c.state.states.len(), full.conf().unwrap().state.states.len());
            ensure!(b == N && (a == 0 || states), "the solver state holds {a} states");
        }
        Ok(())
    }),
    crate::p_wide::logs(th),
    harness("flags switched during the run", move |ctx| {
        // each report interval with its own flags: the log holds exactly the steps of the intervals with saving on
        let s = 5 + ctx.choose("solver", 2);
        let rhs = [smooth(), Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: STIFF, p: vec![25.0] }][ctx.choose("model", 3)].clone();
        let (rtol, atol, mi) = *ctx.pick("settings", &[(1e-5, 1e-9, 5u8), (1e-2, 1e-3, 1), (1e-6, 1e-12, 2)]);
        let rep = ctx.pick("schedule", &[vec![0.3, 0.9, 1.0, 2.0], vec![0.0, 0.02, 0.5, 1.5]]).clone();
        let y0 = y0_for(&rhs);
        let new = |a, b| gen_sys(adaptive(s, aconf(0.1, 0.7, mi, rtol, atol, a, b)), rhs.clone(), 0.0, &y0, vec![]);
        let (mut full, mut sys) = (new(true, true), new(false, false));
        let mut want: Vec<(f64, u8, Option<f64>, Option<f64>, f64, Vec<f64>)> = vec![];
        probe_start(false, 200_000);
        for k in 0..rep.len() {
            let (save, states) = (ctx.flag("save"), ctx.flag("save states"));
            let from = full.conf().unwrap().history.len();
            full.t_report = rep[..=k].to_vec();
            sys.t_report = rep[..=k].to_vec();
            let c = sys.sc_mut().unwrap();
            c.save = save;
            c.save_states = states;
            ctx.step();
            full.walk();
            sys.walk();
            if save {
                let h = &full.conf().unwrap().history;
                want.extend((from..h.len()).map(|k| (h.dt[k], h.n_iter[k], h.norm_err[k], h.norm_err_rel[k], h.t_curr[k], if states { h.states[k].clone() } else { vec![] })));
            }
            let h = &sys.conf().unwrap().history;
            let got: Vec<_> = (0..h.len()).map(|k| (h.dt[k], h.n_iter[k], h.norm_err[k], h.norm_err_rel[k], h.t_curr[k], h.states[k].clone())).collect();
            ensure!(got == want, "with the flags switched between reports the log is {got:?}, expected {want:?}");
            ensure!(sys.y() == full.y() && sys.state == full.state, "switching the flags changes the trajectory");
            ctx.state(H::new().fs(&h.dt).u(save as u64 * 2 + states as u64).done());
        }
        Ok(())
    }),
    harness("long logs", move |ctx| {
        // many steps: none is missing, whatever their number
        let s = 5 + ctx.choose("solver", 2);
        let n = *ctx.pick("steps", if th { &[300.0, 1100.0, 2100.0, 5000.0, 12000.0][..] } else { &[300.0, 5000.0][..] });
        let reps = 1 + ctx.choose("reports-1", 2);
        let states = ctx.flag("states");
        let rep: Vec<f64> = (1..=reps).map(|k| k as f64 / reps as f64).collect();
        let mut sys = gen_sys(adaptive(s, aconf(0.1, 1.0 / n, 5, 1e-2, 1e-9, true, states)), Rhs { kind: CONST, p: vec![1.0, -3.0] }, 0.0, &Y0_, rep);
        probe_start(false, 10_000_000);
        ctx.step();
        sys.walk();
        let h = &sys.conf().unwrap().history;
        let mut t = 0.0;
        for k in 0..h.len() {
            ensure!((h.t_curr[k] - t).abs() <= 1e-9, "entry {k} starts at {}, the previous one ended at {t}", h.t_curr[k]);
            t = h.t_curr[k] + h.dt[k];
            ensure!(h.states[k].len() == if states { N } else { 0 }, "entry {k} holds {} states", h.states[k].len());
            ensure!(!states || (h.states[k][1] - (Y0_[1] - 3.0 * t)).abs() <= 1e-9, "entry {k} holds {:?}", h.states[k]);
        }
        ensure!((t - 1.0).abs() <= 1e-9, "the log ends at {t}, the run at 1");
        ensure!(h.len() as f64 >= n - 1.0 && h.len() as f64 <= n + 2.0 * reps as f64 + 2.0, "{} entries for {n} steps", h.len());
        ctx.state(H::new().fs(&h.dt).done());
        Ok(())
    }),
    harness("mean step of any log", move |ctx| {
        let n = ctx.choose("entries", if th { 6 } else { 5 });
        let mut c = aconf(0.1, 1.0, 3, 1e-5, 1e-9, true, true);
        let mut sum = 0.0;
        for k in 0..n {
            let dt = *ctx.pick("dt", &[0.5, 0.1, 3.0, 1e-12]);
            let t = *ctx.pick("t", &[0.0, 7.0, -2.0]);
            sum += dt;
            c.history.push(SolverState { dt, t_curr: t, n_iter: k as u8, ..Default::default() });
        }
        ctx.step();
        match c.dt_mean() {
            None => ensure!(n == 0, "no mean of {n} steps"),
            Some(m) => ensure!(n > 0 && (m - sum / n as f64).abs() <= 1e-13 * sum, "mean step {m} of the logged steps {:?}", c.history.dt),
        }
        ctx.state(H::new().f(sum).u(n as u64).done());
        Ok(())
    })]
}
