//! C01 report records, C02 step limits, C07 schedule independence, C08 stop/resume, C18 recorded rates, C23 progress.
use crate::engine::*;
use crate::refmodel::*;
use crate::systems::*;
use crate::{ensure, fail};
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;

pub fn smooth() -> Rhs {
    Rhs { kind: SMOOTH, p: vec![0.8, 0.5] }
}
pub const Y0: Y = [0.3, -1.2, 2.0, 0.0, -0.4, 1.1];

/// an initial state from which the model stays bounded
pub fn y0_for(r: &Rhs) -> Y {
    if r.kind == LOGISTIC {
        [0.3, 0.8, 0.05, 0.0, 0.5, 1.0]
    } else {
        Y0
    }
}

pub fn hash_sys(s: &GenSys) -> u64 {
    let mut h = H::new();
    h.f(s.state.time).u(s.state.i as u64).fs(&s.y()).fs(&s.dy()).fs(&s.history.time);
    for n in s.nodes() {
        h.fs(&n.history.x).fs(&n.history.dx);
    }
    if let Some(c) = s.conf() {
        h.f(c.state.dt).u(c.state.n_iter as u64).f(c.state.norm_err.unwrap_or(-1.)).fs(&c.history.dt);
    }
    h.done()
}

/// a schedule relative to t0: first report offset, then increments
pub fn schedule(ctx: &mut Ctx, t0: f64, firsts: &[f64], incs: &[f64], max_more: usize) -> Vec<f64> {
    let f = *ctx.pick("first", firsts);
    let n = ctx.choose("more", max_more + 1);
    let mut v = vec![t0 + f];
    for _ in 0..n {
        let i = *ctx.pick("inc", incs);
        let l = *v.last().unwrap();
        v.push(l + i);
    }
    v
}

/// the report-loop model: (report counter, time) of every record, and the oracle for one walk
pub fn check_records(ctx: &mut Ctx, sys: &GenSys, pre: usize, i0: usize, t0: f64, rep: &[f64]) -> R {
    check_records_in(ctx, sys, pre, i0, t0, rep, 1.0)
}
/// the same with times in the given unit
pub fn check_records_in(ctx: &mut Ctx, sys: &GenSys, pre: usize, i0: usize, t0: f64, rep: &[f64], unit: f64) -> R {
    let n = rep.len() - i0;
    ensure!(sys.history.len() == pre + n, "history has {} records, expected {} ({} report times)", sys.history.len(), pre + n, n);
    for (k, nd) in sys.nodes().iter().enumerate() {
        ensure!(nd.history.len() == pre + n && nd.history.x.len() == pre + n && nd.history.dx.len() == pre + n, "component {k} history has {} records, expected {}", nd.history.len(), pre + n);
    }
    let mut last = t0;
    for k in 0..n {
        let want = rep[i0 + k].max(t0);
        let got = sys.history.time[pre + k];
        let tol = 1e-12 * (unit + want.abs());
        ensure!((got - want).abs() <= tol, "record {k} carries time {got:?}, requested {want:?}");
        ensure!(got >= last, "record times go backwards at record {k}");
        ensure!(sys.history.i[pre + k] == i0 + k + 1, "record {k} has report counter {}, expected {}", sys.history.i[pre + k], i0 + k + 1);
        last = got;
        let r = sys.row(pre + k);
        let mut h = H::new();
        h.f(got).fs(&r);
        ctx.state(h.done());
    }
    let e = pre + n - 1;
    ensure!(sys.history.time[e] == sys.state.time && sys.history.i[e] == sys.state.i, "the last record does not carry the final time/counter");
    ensure!(sys.row(e) == sys.y() && sys.drow(e) == sys.dy(), "the last record differs from the state when walking returned");
    Ok(())
}

/// a power of ten
pub fn decade(ctx: &mut Ctx, label: &'static str, th: bool) -> f64 {
    let v: Vec<i32> = if th { (-15..=15).collect() } else { (-4..=4).map(|k| 3 * k).collect() };
    format!("1e{}", ctx.pick(label, &v)).parse().unwrap()
}

pub fn c01(th: bool) -> Vec<Harness> {
    let max_more = if th { 4 } else { 3 };
    vec![
        harness("schedules", move |ctx| {
            let s = ctx.choose("solver", 7);
            let t0 = *ctx.pick("t0", &[0.0, -1.0, 0.3, 1000.0]);
            let rep = schedule(ctx, t0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.01, 3.3], max_more);
            let dt = *ctx.pick("dt", &[0.1, 0.25, 1.0, 7.0, 0.0037]);
            let pre = ctx.choose("records before", 2);
            let mut sys = gen_sys(solver(s, dt), smooth(), t0, &Y0, rep.clone());
            probe_start(false, 400_000);
            for _ in 0..pre {
                sys.save_state();
            }
            let before = sys.clone();
            ctx.step();
            sys.walk();
            if *rep.last().unwrap() <= t0 {
                ensure!(sys == before, "walking a system that is past its last report time changed it");
                ctx.obs_u(1);
                return Ok(());
            }
            check_records(ctx, &sys, pre, 0, t0, &rep)?;
            if pre == 1 {
                ensure!(sys.row(0) == before.y() && sys.history.time[0] == t0 && sys.history.i[0] == 0, "a record made before the walk changed");
            }
            let once = sys.clone();
            ctx.step();
            sys.walk();
            ensure!(sys == once, "walking again at the last report time changed the system");
            ctx.obs_u(hash_sys(&sys));
            Ok(())
        }),
        harness("long schedules", move |ctx| {
            let s = ctx.choose("solver", 7);
            let n = *ctx.pick("n", if th { &[10usize, 100, 257, 1000, 5000][..] } else { &[10usize, 100, 257, 1000][..] });
            let kind = ctx.choose("spacing", 4);
            let t0 = *ctx.pick("t0", &[0.0, -2.5]);
            let dt = *ctx.pick("dt", &[0.02, 0.5]);
            let rep: Vec<f64> = match kind {
                0 => Vec::linspace(t0, t0 + 7.0, n),
                // a system started in the middle of its schedule
                3 => Vec::linspace(t0 - 3.0, t0 + 4.0, n),
                1 => (0..n).map(|k| t0 + 0.03 * (k as f64 + 0.4 * ((k * 7919) % 13) as f64 / 13.0)).collect(),
                _ => (0..n).map(|k| t0 + 5.0 * ((k + 1) as f64 / n as f64).powi(3)).collect(),
            };
            let mut sys = gen_sys(solver(s, dt), smooth(), t0, &Y0, rep.clone());
            probe_start(false, 3_000_000);
            ctx.step();
            sys.walk();
            check_records(ctx, &sys, 0, 0, t0, &rep)?;
            ctx.obs_u(hash_sys(&sys));
            Ok(())
        }),
        harness("other magnitudes", move |ctx| {
            let s = ctx.choose("solver", 7);
            let (tau, amp) = (decade(ctx, "unit of time", th), *ctx.pick("unit of state", &[1.0, 1e-9, 1e12]));
            let t0 = *ctx.pick("start", &[0.0, -2.5, 1e5, -1e5]) * tau;
            let rel = schedule(ctx, 0.0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.01, 3.3], if th { 3 } else { 2 });
            let rep: Vec<f64> = rel.iter().map(|r| t0 + r * tau).collect();
            let dt = *ctx.pick("dt", &[0.1, 7.0]) * tau;
            if *rel.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            let st = if s < FIXED { fixed(s, dt) } else { adaptive(s, aconf(dt, 10.0 * tau, 5, 1e-5, 1e-9 * amp, false, false)) };
            let mut sys = gen_sys(st, in_units(&smooth(), tau, amp, t0), t0, &Y0.map(|y| y * amp), rep.clone());
            probe_start(false, 400_000);
            ctx.step();
            sys.walk();
            check_records_in(ctx, &sys, 0, 0, t0, &rep, tau)?;
            let once = sys.clone();
            sys.walk();
            ensure!(sys == once, "walking again at the last report time changed the system");
            Ok(())
        }),
        harness("very long schedules", move |ctx| {
            let s = ctx.choose("solver", 7);
            // the other solvers copy the schedule with the system at every step
            let n = *ctx.pick("n", if s == 0 { &[4099usize, 33_000, 70_000, 200_000][..] } else if th { &[1500usize, 4099, 9000][..] } else { &[4099usize][..] });
            let rep: Vec<f64> = (1..=n).map(|k| k as f64 / 64.0).collect();
            let mut sys = gen_sys(solver(s, 1.0), Rhs { kind: CONST, p: vec![1.0, -3.0] }, 0.0, &Y0, rep.clone());
            probe_start(false, 30_000_000);
            ctx.step();
            sys.walk();
            check_records(ctx, &sys, 0, 0, 0.0, &rep)?;
            Ok(())
        }),
        harness("resumed schedules", move |ctx| {
            // walk a first schedule, extend it, walk again: records continue without a gap or a repeat
            let s = ctx.choose("solver", 7);
            let rep = schedule(ctx, 0.0, &[0.0, 0.4], &[0.25, 1.3], 2);
            let ext = ctx.choose("extension", 3) + 1;
            let step = *ctx.pick("inc", &[0.05, 0.9]);
            let dt = *ctx.pick("dt", &[0.1, 0.7]);
            if *rep.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            let mut sys = gen_sys(solver(s, dt), smooth(), 0.0, &Y0, rep.clone());
            probe_start(false, 400_000);
            ctx.step();
            sys.walk();
            let n1 = rep.len();
            let t1 = sys.state.time;
            let first = sys.clone();
            let mut full = rep.clone();
            for k in 0..ext {
                full.push(rep[n1 - 1] + step * (k + 1) as f64);
            }
            sys.t_report = full.clone();
            ctx.step();
            sys.walk();
            check_records(ctx, &sys, n1, n1, t1, &full)?;
            ensure!(sys.history.time[..n1] == first.history.time[..] && (0..n1).all(|k| sys.row(k) == first.row(k)), "resuming a walk changed earlier records");
            ctx.obs_u(hash_sys(&sys));
            Ok(())
        }),
        harness("example systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let bc = ctx.flag("with boundary");
            let rep = schedule(ctx, 0.0, &[0.0, 0.1, -0.2], &[0.05, 0.31], 3);
            let dt = *ctx.pick("dt", &[0.02, 0.5]);
            if *rep.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            ctx.step();
            let (hist, lens, last): (SystemStateHistoryVec, Vec<usize>, bool) = if bc {
                let mut y = System3TMWithBC { solver_type: solver(s, dt), t_report: rep.clone(), ..Default::default() };
                y.walk();
                let e = y.history.len().max(1) - 1;
                let l = y.m2.history.temp.get(e) == Some(&y.m2.state.temp) && y.m3.history.temp.get(e) == Some(&y.m3.state.temp) && y.h12.history.q.get(e) == Some(&y.h12.state.q);
                (y.history.clone(), vec![y.m1.history.len(), y.m2.history.len(), y.h12.history.len(), y.m3.history.len(), y.h23.history.len()], l)
            } else {
                let mut y = System3TM { solver_type: solver(s, dt), t_report: rep.clone(), ..Default::default() };
                y.walk();
                let e = y.history.len().max(1) - 1;
                let l = y.m1.history.temp.get(e) == Some(&y.m1.state.temp) && y.m3.history.temp.get(e) == Some(&y.m3.state.temp) && y.h23.history.q.get(e) == Some(&y.h23.state.q);
                (y.history.clone(), vec![y.m1.history.len(), y.m2.history.len(), y.h12.history.len(), y.m3.history.len(), y.h23.history.len()], l)
            };
            ensure!(hist.len() == rep.len() && hist.i.len() == rep.len(), "{} records for {} report times", hist.len(), rep.len());
            ensure!(lens.iter().all(|l| *l == rep.len()), "component record counts {lens:?} for {} report times", rep.len());
            for k in 0..rep.len() {
                ensure!((hist.time[k] - rep[k].max(0.0)).abs() <= 1e-12, "record {k} has time {} for report time {}", hist.time[k], rep[k]);
                ensure!(hist.i[k] == k + 1, "record {k} has counter {}", hist.i[k]);
            }
            ensure!(last, "the last record differs from the final state");
            let mut h = H::new();
            ctx.state(h.fs(&hist.time).u(s as u64).done());
            Ok(())
        }),
    ]
}

pub fn c02(th: bool) -> Vec<Harness> {
    let max_more = if th { 4 } else { 3 };
    let rhss = [smooth(), Rhs { kind: LOGISTIC, p: vec![1.5] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }];
    let rhss2 = rhss.clone();
    vec![
        harness("fixed: windows and full steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let r = ctx.choose("model", 3);
            let t0 = *ctx.pick("t0", &[0.0, -1.7, 300.0]);
            let rep = schedule(ctx, t0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.013], max_more);
            let dt = *ctx.pick("dt", &[0.1, 0.25, 1.0, 7.0, 0.02, 0.37]);
            let y0 = y0_for(&rhss[r]);
            let mut sys = gen_sys(fixed(s, dt), rhss[r].clone(), t0, &y0, rep.clone());
            let rhs = rhss[r].clone();
            let f = move |t: f64, y: &Y| {
                let mut d = [0.0; N];
                rhs_eval(rhs.kind, &rhs.p, t, y, &mut d);
                d
            };
            let model = walk_fixed(s, &f, t0, &y0, dt, &rep);
            for k in 0..rep.len() {
                let ts = sys.state.time;
                probe_start(true, 100_000);
                ctx.step();
                sys.state.i = k;
                sys.solve_step();
                let te = sys.state.time;
                window(&probe_take_times(), ts, rep[k], te)?;
                ensure!(te >= rep[k].min(ts.max(rep[k])) - 1e-12 * (1. + te.abs()), "report time {} not reached: {te}", rep[k]);
                gaps(&probe_take_times(), ts, te, dt)?;
                let y = sys.y();
                ensure!(close_y(&y, &model[k].1, 1e-9), "states at report {k} are {:?}; {} steps of size {dt}, shortened only before a report, give {:?}", y, SOLVERS[s], model[k].1);
                ctx.state(H::new().f(te).fs(&y).done());
                sys.state.i += 1;
            }
            Ok(())
        }),
        harness("fixed: just off a whole number of steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let t0 = *ctx.pick("t0", &[0.0, -1.0]);
            let dt = *ctx.pick("dt", &[0.125, 0.1, 3.0]);
            let n = *ctx.pick("steps", &[1.0, 2.0, 3.0, 10.0, 50.0]);
            let off = *ctx.pick("off", &[0.0, 1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9]) * if ctx.flag("short") { -1.0 } else { 1.0 };
            let lead = ctx.flag("report at the start");
            let end = t0 + (n + off) * dt;
            let mut rep = if lead { vec![t0, end] } else { vec![end] };
            rep.push(end + 2.0 * dt);
            let mut sys = gen_sys(fixed(s, dt), smooth(), t0, &Y0, rep.clone());
            probe_start(true, 10_000);
            ctx.step();
            sys.walk();
            full_steps(s, &probe_take_times(), t0, dt, &rep, 1.0)?;
            ctx.state(H::new().fs(&sys.y()).done());
            Ok(())
        }),
        harness("fixed: other magnitudes", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let (tau, amp) = (decade(ctx, "unit of time", th), *ctx.pick("unit of state", &[1.0, 1e-9, 1e12]));
            let t0 = *ctx.pick("start", &[0.0, -2.5, 1e5, -1e5]) * tau;
            let rel = schedule(ctx, 0.0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.013, 3.3], if th { 3 } else { 2 });
            let dt = *ctx.pick("dt", &[0.1, 0.37, 7.0]) * tau;
            let rep: Vec<f64> = rel.iter().map(|r| t0 + r * tau).collect();
            if *rel.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            let mut sys = gen_sys(fixed(s, dt), in_units(&smooth(), tau, amp, t0), t0, &Y0.map(|y| y * amp), rep.clone());
            probe_start(true, 100_000);
            ctx.step();
            sys.walk();
            let times = probe_take_times();
            let te = sys.state.time;
            window_in(&times, t0, *rep.last().unwrap(), te, tau)?;
            gaps_in(&times, t0, te, dt, tau)?;
            full_steps(s, &times, t0, dt, &rep, tau)?;
            ctx.state(H::new().f(te).fs(&sys.y()).done());
            Ok(())
        }),
        harness("fixed: many steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let n = *ctx.pick("steps", if th { &[30usize, 150, 300, 1100, 5000, 20000][..] } else { &[30usize, 150, 300, 1100, 4200][..] });
            let per = *ctx.pick("steps per report", &[1.0, 0.4, 2.5, 3.0, 10.0, 101.7, 1e9]);
            let dt = *ctx.pick("dt", &[0.125, 0.1, 3.0, 1e-4]);
            let t0 = *ctx.pick("t0", &[0.0, -1.0, 60.0]);
            let mut rep = vec![];
            let mut k = per;
            while k < n as f64 {
                rep.push(t0 + k * dt);
                k += per;
            }
            rep.push(t0 + n as f64 * dt);
            let mut sys = gen_sys(fixed(s, dt), in_units(&smooth(), dt, 1.0, t0), t0, &Y0, rep.clone());
            probe_start(true, 1_000_000);
            ctx.step();
            sys.walk();
            let times = probe_take_times();
            window(&times, t0, *rep.last().unwrap(), sys.state.time)?;
            full_steps(s, &times, t0, dt, &rep, dt)?;
            ctx.state(H::new().fs(&sys.y()).done());
            Ok(())
        }),
        harness("adaptive: other magnitudes", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let (tau, amp) = (decade(ctx, "unit of time", th), *ctx.pick("unit of state", &[1.0, 1e-9, 1e12]));
            let t0 = *ctx.pick("start", &[0.0, -2.5, 1e5, -1e5]) * tau;
            let rel = schedule(ctx, 0.0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.013, 3.3], if th { 3 } else { 2 });
            let dt0 = *ctx.pick("dt init", &[0.1, 50.0]) * tau;
            let dtm = *ctx.pick("dt max", &[10.0, 0.15]) * tau;
            let rep: Vec<f64> = rel.iter().map(|r| t0 + r * tau).collect();
            if *rel.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, 5, 1e-5, 1e-9 * amp, true, false)), in_units(&smooth(), tau, amp, t0), t0, &Y0.map(|y| y * amp), rep.clone());
            probe_start(true, 100_000);
            ctx.step();
            sys.walk();
            window_in(&probe_take_times(), t0, *rep.last().unwrap(), sys.state.time, tau)?;
            let c = sys.conf().unwrap();
            let (mut t, mut k) = (t0, 0);
            for d in &c.history.dt {
                ensure!(*d <= dtm * (1. + 1e-12), "step of {d} exceeds the maximum step {dtm}");
                let tol = 1e-12 * (tau + t.abs());
                while k < rep.len() && t >= rep[k] - tol {
                    k += 1;
                }
                t += d;
                // (a first step shorter than the resolution may lie on the report itself)
                ensure!(k == rep.len() || t <= rep[k] + tol, "a step of {d} ends at {t}, past the report time {}", rep[k]);
            }
            ctx.state(H::new().fs(&sys.y()).done());
            Ok(())
        }),
        harness("adaptive: windows and limits", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let r = ctx.choose("model", 3);
            let t0 = *ctx.pick("t0", &[0.0, -1.7]);
            let rep = schedule(ctx, t0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.013], max_more);
            let dt0 = *ctx.pick("dt init", &[0.1, 0.004, 50.0]);
            let dtm = *ctx.pick("dt max", &[10.0, 0.05, 0.4, 1e6]);
            let rtol = *ctx.pick("rtol", &[1e-5, 1e-2, 1e-9]);
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, 5, rtol, 1e-9, true, false)), rhss2[r].clone(), t0, &y0_for(&rhss2[r]), rep.clone());
            for k in 0..rep.len() {
                let ts = sys.state.time;
                let n0 = sys.conf().unwrap().history.len();
                probe_start(true, 60_000);
                ctx.step();
                sys.state.i = k;
                sys.solve_step();
                let te = sys.state.time;
                window(&probe_take_times(), ts, rep[k], te)?;
                let c = sys.conf().unwrap();
                let mut t = ts;
                for e in n0..c.history.len() {
                    let d = c.history.dt[e];
                    ensure!(d <= dtm * (1. + 1e-12), "step of {d} exceeds the maximum step {dtm}");
                    t += d;
                    ensure!(t <= rep[k] + 1e-12 * (1. + t.abs()), "a step ends at {t}, past the report time {}", rep[k]);
                }
                ctx.state(H::new().f(te).fs(&sys.y()).done());
                sys.state.i += 1;
            }
            Ok(())
        }),
    ]
}
fn window(times: &[f64], ts: f64, rep: f64, te: f64) -> R {
    window_in(times, ts, rep, te, 1.0)
}
fn window_in(times: &[f64], ts: f64, rep: f64, te: f64, unit: f64) -> R {
    let tol = 1e-12 * (unit + ts.abs().max(rep.abs()));
    for t in times {
        ensure!(*t >= ts - tol && *t <= rep.max(ts) + tol, "model evaluated at {t:?}, outside [{ts:?}, {rep:?}]");
    }
    ensure!(te <= rep.max(ts) + tol, "walk ended the segment at {te:?}, past the report time {rep:?}");
    Ok(())
}
/// the model is evaluated exactly at the stage times of full steps, only the last one before a report shortened
fn full_steps(s: usize, times: &[f64], t0: f64, dt: f64, rep: &[f64], unit: f64) -> R {
    let tab = tableau(s);
    let tol = |t: f64| 2e-14 * (unit + t.abs()) * (1.0 + times.len() as f64 * 0.01);
    let (mut t, mut starts, mut all) = (t0, vec![], vec![]);
    for r in rep {
        while t < *r - tol(*r) {
            let h = dt.min(*r - t);
            starts.push(t);
            all.extend(tab.c.iter().map(|c| t + c * h));
            t += h;
            all.push(t);
        }
    }
    let mut seen = times.to_vec();
    seen.sort_by(f64::total_cmp);
    all.sort_by(f64::total_cmp);
    let near = |v: &[f64], x: f64| v.get(v.partition_point(|t| *t < x - tol(x))).is_some_and(|t| *t <= x + tol(x));
    for x in &starts {
        ensure!(near(&seen, *x), "no step starts at {x:?}: steps are not of size {dt:?} up to the last one before a report ({rep:?})");
    }
    for x in times {
        ensure!(near(&all, *x), "the model is evaluated at {x:?}, which belongs to no step of size {dt:?} (report times {rep:?})");
    }
    Ok(())
}
fn gaps(times: &[f64], ts: f64, te: f64, lim: f64) -> R {
    gaps_in(times, ts, te, lim, 1.0)
}
fn gaps_in(times: &[f64], ts: f64, te: f64, lim: f64, unit: f64) -> R {
    let mut v = times.to_vec();
    v.push(ts);
    v.push(te);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    if times.is_empty() {
        return Ok(());
    }
    for w in v.windows(2) {
        ensure!(w[1] - w[0] <= lim * (1. + 1e-9) + 1e-12 * unit + 1e-15 * te.abs(), "no model evaluation between {} and {}: a step is longer than {lim}", w[0], w[1]);
    }
    Ok(())
}

pub fn c07(th: bool) -> Vec<Harness> {
    let g = if th { 10usize } else { 8 };
    let rhss = [smooth(), Rhs { kind: LOGISTIC, p: vec![0.9] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: TREE, p: vec![0.0, 3.0, 0.0, 1.0, 2.0, -1.0, 0.0, 1.0, 0.0, 0.0, 0.0] }];
    let mk = move |dyadic: bool| {
        let rhss = rhss.clone();
        move |ctx: &mut Ctx| -> R {
            let s = ctx.choose("solver", FIXED);
            let r = ctx.choose("model", 4);
            let dt = if dyadic { *ctx.pick("dt", &[0.25, 0.5, 0.03125]) } else { *ctx.pick("dt", &[0.1, 0.3]) };
            let t0 = *ctx.pick("t0", &[0.0, -1.0]);
            let grid: Vec<f64> = if dyadic { (0..=g).map(|k| t0 + dt * k as f64).collect() } else { let mut t = t0; (0..=g).map(|_| { let x = t; t += dt; x }).collect() };
            // reference schedule: only the end; compared schedule: every subset of interior grid points
            let mut sub = vec![];
            for k in 1..g {
                if ctx.flag("report at grid point") {
                    sub.push(k);
                }
            }
            sub.push(g);
            let run = |idx: &[usize]| {
                let mut sys = gen_sys(fixed(s, dt), rhss[r].clone(), t0, &y0_for(&rhss[r]), idx.iter().map(|k| grid[*k]).collect());
                probe_start(false, 100_000);
                sys.walk();
                sys
            };
            let all: Vec<usize> = (1..=g).collect();
            let a = run(&sub);
            let b = run(&all);
            ctx.step();
            ctx.step();
            ensure!(a.history.len() == sub.len() && b.history.len() == g, "record counts");
            for (j, k) in sub.iter().enumerate() {
                let (x, y) = (a.row(j), b.row(k - 1));
                ensure!(close_y(&x, &y, 1e-9), "at t={} the states are {:?} when reporting at {:?} but {:?} when reporting at every step", grid[*k], x, sub, y);
                ctx.state(H::new().f(grid[*k]).fs(&x).done());
            }
            Ok(())
        }
    };
    let long = harness("many steps, other magnitudes", move |ctx| {
        let s = ctx.choose("solver", FIXED);
        let n = *ctx.pick("steps", if th { &[20usize, 200, 600, 2000, 10000][..] } else { &[20usize, 200, 600][..] });
        let tau = *ctx.pick("unit of time", if th { &[1.0, 1e-12, 1e-9, 1e-6, 1e-3, 1e3, 1e6, 1e9, 1e12][..] } else { &[1.0, 1e-9, 1e6][..] });
        let amp = *ctx.pick("unit of state", &[1.0, 1e-12, 1e9]);
        let dt = *ctx.pick("dt", &[0.125, 0.01]) * tau;
        let t0 = *ctx.pick("start", &[0.0, -1.0, 4096.0]) * tau;
        let mut t = t0;
        let grid: Vec<f64> = (0..=n).map(|_| { let x = t; t += dt; x }).collect();
        let way = ctx.choose("reports", 8);
        let sub: Vec<usize> = match way {
            0 => vec![n],
            1 => vec![1, n],
            2 => vec![n - 1, n],
            3 => (1..=n / 2).map(|k| 2 * k).collect(),
            4 => (1..=n).filter(|k| k % 7 == 3 || *k == n).collect(),
            5 => (1..=n).filter(|k| k % 50 == 0 || *k == n).collect(),
            6 => (1..=n).filter(|k| *k <= n / 3 || *k == n).collect(),
            _ => (1..=n).filter(|k| *k > n / 2).collect(),
        };
        let run = |idx: &[usize]| {
            let mut sys = gen_sys(fixed(s, dt), in_units(&smooth(), tau, amp, t0), t0, &Y0.map(|y| y * amp), idx.iter().map(|k| grid[*k]).collect());
            probe_start(false, 1_000_000);
            sys.walk();
            sys
        };
        let a = run(&sub);
        let b = run(&(1..=n).collect::<Vec<_>>());
        ctx.step();
        ctx.step();
        ensure!(a.history.len() == sub.len() && b.history.len() == n, "record counts");
        for (j, k) in sub.iter().enumerate() {
            let (x, y) = (a.row(j).map(|v| v / amp), b.row(k - 1).map(|v| v / amp));
            ensure!(close_y(&x, &y, 1e-9), "after step {k} of {dt:e} from {t0:e} the states are {x:?} when reporting at {} of {n} steps but {y:?} when reporting at every step", sub.len());
        }
        ctx.state(H::new().fs(&a.y()).u(way as u64).done());
        Ok(())
    });
    vec![harness("dyadic grids", mk(true)), harness("non-dyadic grids", mk(false)), long, harness("example systems", move |ctx| {
        let s = ctx.choose("solver", FIXED);
        let bc = ctx.flag("with boundary");
        let dt = *ctx.pick("dt", &[0.0078125, 0.03125]);
        let g = 6usize;
        let mut sub = vec![];
        for k in 1..g {
            if ctx.flag("report at grid point") {
                sub.push(k);
            }
        }
        sub.push(g);
        let run = |idx: &[usize]| -> Vec<[f64; 3]> {
            let t_report: Vec<f64> = idx.iter().map(|k| dt * *k as f64).collect();
            if bc {
                let mut y = System3TMWithBC { solver_type: fixed(s, dt), t_report, ..Default::default() };
                y.walk();
                (0..y.history.len()).map(|k| [y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect()
            } else {
                let mut y = System3TM { solver_type: fixed(s, dt), t_report, ..Default::default() };
                y.walk();
                (0..y.history.len()).map(|k| [y.m1.history.temp[k], y.m2.history.temp[k], y.m3.history.temp[k]]).collect()
            }
        };
        let a = run(&sub);
        let b = run(&(1..=g).collect::<Vec<_>>());
        ctx.step();
        ctx.step();
        for (j, k) in sub.iter().enumerate() {
            ensure!(a.len() == sub.len() && close_y(&a[j], &b[k - 1], 1e-10), "at step {k}: {:?} vs {:?}", a.get(j), b[k - 1]);
            ctx.state(H::new().fs(&a[j]).done());
        }
        Ok(())
    })]
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    None,
    Clone,
    Yaml,
    Bin,
    Json,
    File,
    Walk,
}
pub fn c08(th: bool) -> Vec<Harness> {
    const ACTS: [Act; 7] = [Act::None, Act::Clone, Act::Yaml, Act::Bin, Act::Walk, Act::File, Act::Json];
    fn apply<T: SerdeAPI + Clone>(x: &T, a: Act) -> Result<T, Fail> {
        let e = |s: String| Fail { key: String::new(), msg: s };
        Ok(match a {
            Act::None | Act::Walk => x.clone(),
            Act::Clone => x.clone().clone(),
            Act::Yaml => T::from_yaml(&x.to_yaml()).map_err(|z| e(format!("checkpoint does not load: {z}")))?,
            Act::Bin => T::from_bincode(&x.to_bincode()).map_err(|z| e(format!("checkpoint does not load: {z}")))?,
            Act::Json => T::from_json(&x.to_json()).map_err(|z| e(format!("checkpoint does not load: {}", z.to_string().lines().next().unwrap_or(""))))?,
            Act::File => {
                let p = crate::scratch().join(format!("ckpt-{:?}.yaml", std::thread::current().id()));
                let p = p.to_str().unwrap().to_string();
                x.to_file(&p).map_err(|z| e(format!("checkpoint not saved: {z}")))?;
                let y = T::from_file(&p).map_err(|z| e(format!("checkpoint does not load: {z}")))?;
                let _ = std::fs::remove_file(&p);
                y
            }
        })
    }
    /// generic over the three systems through closures
    struct Ops<S> {
        walk: fn(&mut S),
        one: fn(&mut S),
        set_rep: fn(&mut S, Vec<f64>),
        nums: fn(&S) -> Vec<f64>,
    }
    fn run<S: SerdeAPI + Clone + PartialEq>(ctx: &mut Ctx, start: &S, rep: &[f64], jtol: f64, ops: &Ops<S>) -> R {
        run_at(ctx, start, rep, &|_| None, jtol, ops)
    }
    /// `at`: the action at each report, if it is settled
    fn run_at<S: SerdeAPI + Clone + PartialEq>(ctx: &mut Ctx, start: &S, rep: &[f64], at: &dyn Fn(usize) -> Option<Act>, jtol: f64, ops: &Ops<S>) -> R {
        let mut solo = start.clone();
        (ops.set_rep)(&mut solo, rep.to_vec());
        ctx.step();
        (ops.walk)(&mut solo);
        let mut sys = start.clone();
        let mut json = false;
        for k in 0..rep.len() {
            let a = at(k).unwrap_or_else(|| ACTS[ctx.choose_dev("at report", ACTS.len())]);
            json |= a == Act::Json;
            if at(k) != Some(Act::None) {
                sys = apply(&sys, a)?;
            }
            ctx.step();
            if a == Act::Walk {
                // schedule known only up to report k: walk() it (first report at the start time is a no-op)
                (ops.set_rep)(&mut sys, rep[..=k].to_vec());
                let n0 = (ops.nums)(&sys);
                (ops.walk)(&mut sys);
                if k == 0 && (ops.nums)(&sys) == n0 {
                    (ops.one)(&mut sys);
                }
            } else {
                (ops.set_rep)(&mut sys, rep.to_vec());
                (ops.one)(&mut sys);
            }
            let v = (ops.nums)(&sys);
            ctx.state(H::new().fs(&v).done());
        }
        (ops.set_rep)(&mut sys, rep.to_vec());
        (ops.walk)(&mut sys);
        if json {
            let (a, b) = ((ops.nums)(&sys), (ops.nums)(&solo));
            ensure!(a.len() == b.len() && a.iter().zip(&b).all(|(x, y)| close(*x, *y, jtol)), "a run resumed through a JSON checkpoint differs from the uninterrupted run: {a:?} vs {b:?}");
        } else {
            ensure!(sys == solo, "a stopped and resumed run differs from the uninterrupted run: {:?} vs {:?}", (ops.nums)(&sys), (ops.nums)(&solo));
        }
        Ok(())
    }
    fn all_nums(s: &GenSys) -> Vec<f64> {
        let mut v = vec![s.state.time, s.state.i as f64];
        v.extend(s.y());
        v.extend(s.dy());
        v.extend(&s.history.time);
        for n in s.nodes() {
            v.extend(&n.history.x);
            v.extend(&n.history.dx);
        }
        v
    }
    let nrep = if th { 5 } else { 4 };
    let devs = if th { 3 } else { 2 };
    let aset = [(1e-5, 1e-9, 5u8), (1e-3, 1e-6, 2), (1e-6, 1e-12, 8)];
    vec![
        harness("model systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let r = ctx.choose("model", 4);
            let gap = *ctx.pick("spacing", &[0.7, 0.033]);
            let (rt, at, mi) = aset[if s >= FIXED { ctx.choose("settings", 3) } else { 0 }];
            let save = s >= FIXED && ctx.flag("step log");
            let rep: Vec<f64> = (0..nrep).map(|k| gap * k as f64 * (1.0 + 0.1 * k as f64)).collect();
            let rhs = [smooth(), Rhs { kind: CONST, p: vec![1.0, -2.0] }, Rhs { kind: STIFF, p: vec![8.0] }, Rhs { kind: ZERO, p: vec![] }][r].clone();
            let st = if s < FIXED { fixed(s, 0.15) } else { adaptive(s, aconf(0.1, 3.0, mi, rt, at, save, save)) };
            let start = gen_sys(st, rhs, 0.0, &Y0, vec![]);
            probe_start(false, 1_000_000);
            run(ctx, &start, &rep, if s < FIXED { 1e-9 } else { 100.0 * rt }, &Ops {
                walk: |s| s.walk(),
                one: |s: &mut GenSys| {
                    let k = s.state.i;
                    s.solve_step();
                    s.state.i = k + 1;
                    s.save_state();
                },
                set_rep: |s, r| s.t_report = r,
                nums: all_nums,
            })
        })
        .dev(devs),
        harness("long runs", move |ctx| {
            let s = ctx.choose("solver", 7);
            let n = *ctx.pick("reports", if th { &[40usize, 300, 1100][..] } else { &[40usize, 270][..] });
            let save = s >= FIXED && ctx.flag("step log");
            let (tau, amp, t0) = *ctx.pick("units and start", &[(1.0, 1.0, 0.0), (1e-9, 1e12, -2.5e-9), (1e6, 1e-9, 1e10)]);
            let first = *ctx.pick("stop at report", if th { &[0usize, 1, 2, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 299, 511, 512, 1000, 1023, 1024][..] } else { &[1usize, 32, 129, 257][..] });
            let again = *ctx.pick("and every so many reports", &[usize::MAX, 70]);
            // (loss of digits in JSON is C09's business)
            let a = *ctx.pick("action", &[Act::Clone, Act::Yaml, Act::Bin, Act::Walk, Act::File]);
            if first >= n {
                return ctx.skip();
            }
            let rep: Vec<f64> = (1..=n).map(|k| t0 + tau * 0.11 * (k as f64 + 0.3 * ((k * 7919) % 13) as f64 / 13.0)).collect();
            let st = if s < FIXED { fixed(s, 0.15 * tau) } else { adaptive(s, aconf(0.1 * tau, 3.0 * tau, 5, 1e-5, 1e-9 * amp, save, save)) };
            let start = gen_sys(st, in_units(&smooth(), tau, amp, t0), t0, &Y0.map(|y| y * amp), vec![]);
            probe_start(false, 10_000_000);
            run_at(ctx, &start, &rep, &|k| Some(if k >= first && (k - first) % again == 0 { a } else { Act::None }), 0.0, &Ops {
                walk: |s| s.walk(),
                one: |s: &mut GenSys| {
                    let k = s.state.i;
                    s.solve_step();
                    s.state.i = k + 1;
                    s.save_state();
                },
                set_rep: |s, r| s.t_report = r,
                nums: |s| vec![s.state.time, s.state.i as f64, s.n0.state.x, s.n5.state.x, s.history.len() as f64],
            })
        }),
        harness("example systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let rep: Vec<f64> = (0..4).map(|k| 0.11 * k as f64).collect();
            let st = if s < FIXED { fixed(s, 0.02) } else { adaptive(s, aconf(0.1, 3.0, 5, 1e-4, 1e-7, true, true)) };
            let jtol = if s < FIXED { 1e-9 } else { 1e-2 };
            macro_rules! ops {
                ($T:ty) => {
                    Ops::<$T> {
                        walk: |s| s.walk(),
                        one: |s| {
                            let k = s.state.i;
                            s.solve_step();
                            s.state.i = k + 1;
                            s.save_state();
                        },
                        set_rep: |s, r| s.t_report = r,
                        nums: |s| {
                            let mut v = vec![s.state.time, s.state.i as f64];
                            v.extend(s.states());
                            v.extend(s.derivs());
                            v.extend(&s.history.time);
                            v.extend(&s.m1.history.temp);
                            v.extend(&s.m2.history.temp);
                            v.extend(&s.m3.history.temp);
                            v.extend(&s.m3.history.dtemp);
                            v.extend(&s.h12.history.q);
                            v.extend(&s.h23.history.q);
                            v
                        },
                    }
                };
            }
            match ctx.choose("system", 3) {
                0 => run(ctx, &System3TM { solver_type: st, t_report: vec![], ..Default::default() }, &rep, jtol, &ops!(System3TM)),
                1 => run(ctx, &System3TMWithBC { solver_type: st, t_report: vec![], ..Default::default() }, &rep, jtol, &ops!(System3TMWithBC)),
                _ => {
                    // a system already in equilibrium
                    let mut y = System3TM { solver_type: st, t_report: vec![], ..Default::default() };
                    y.m1.state.temp = 20.0;
                    y.m2.state.temp = 20.0;
                    y.m3.state.temp = 20.0;
                    run(ctx, &y, &rep, jtol, &ops!(System3TM))
                }
            }
        })
        .dev(devs),
    ]
}

// ---------------------------------------------------------------- C18
pub fn c18(th: bool) -> Vec<Harness> {
    let more = if th { 4 } else { 3 };
    let rhss: &'static [Rhs] = Box::leak(Box::new([smooth(), Rhs { kind: LOGISTIC, p: vec![0.2] }, Rhs { kind: QUAD, p: vec![1.0, -2.0, 0.5, 0.3] }, Rhs { kind: STIFF, p: vec![25.0] }]));
    fn conf(ctx: &mut Ctx, s: usize, dt: f64) -> SolverTypes {
        if s < FIXED {
            return fixed(s, dt);
        }
        let (rt, at, mi) = *ctx.pick("settings", &[(1e-5, 1e-9, 5u8), (1e-2, 1e-3, 1), (1e-8, 1e-12, 3)]);
        adaptive(s, aconf(dt, 10.0, mi, rt, at, false, false))
    }
    let mut v = crate::p_wide::magnitudes("rates", th);
    v.push(crate::p_method::stage_patterns("rates", th));
    v.extend(vec![
        harness("reports hit by whole steps", move |ctx| {
            // report times that whole steps reach exactly, or exactly up to rounding
            let s = ctx.choose("solver", 7);
            let u = *ctx.pick("step", &[0.1, 0.3, 0.25, 0.7, 1.0 / 3.0]);
            let t0 = *ctx.pick("t0", &[0.0, 1.1, -0.2]);
            let r = ctx.choose("model", 4);
            let ks = ctx.pick("report after steps", &[vec![1, 2, 3, 4, 5, 6, 7], vec![2, 3, 10], vec![3, 6, 7], vec![7, 29, 30]]).clone();
            let way = ctx.choose("multiples / sums / one unit in the last place around", 4);
            let rep: Vec<f64> = ks
                .iter()
                .map(|k| {
                    let m = t0 + u * *k as f64;
                    let mut sum = t0;
                    (0..*k).for_each(|_| sum += u);
                    match way {
                        0 => m,
                        1 => sum,
                        2 => sum + f64::EPSILON * sum.abs().max(0.01),
                        _ => sum - f64::EPSILON * sum.abs().max(0.01),
                    }
                })
                .collect();
            let st = if s < FIXED {
                fixed(s, u)
            } else {
                // steps of the largest size throughout
                let mi = *ctx.pick("max_iter", &[1u8, 5]);
                adaptive(s, aconf(u, u, mi, 1e6, 1e6, false, false))
            };
            let mut sys = gen_sys(st, rhss[r].clone(), t0, &y0_for(&rhss[r]), rep.clone());
            probe_start(false, 100_000);
            ctx.step();
            sys.walk();
            ensure!(sys.history.len() == rep.len(), "records missing");
            for k in 0..rep.len() {
                let t = sys.history.time[k];
                let want = sys.f(t, &sys.row(k));
                ensure!(close_y(&sys.drow(k), &want, 1e-9), "record {k} (t={t}): recorded derivatives {:?}, the model gives {:?} for the recorded states", sys.drow(k), want);
                ctx.state(H::new().f(t).fs(&sys.drow(k)).done());
            }
            Ok(())
        }),
        harness("model systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let r = ctx.choose("model", 4);
            let t0 = *ctx.pick("t0", &[0.0, -1.0, 2.5]);
            let rep = schedule(ctx, t0, &[0.0, 0.3, -0.5], &[0.25, 1.0, 0.04], more);
            let dt = *ctx.pick("dt", &[0.02, 0.25, 0.07, 3.0]);
            if *rep.last().unwrap() <= t0 {
                return ctx.skip();
            }
            let st = conf(ctx, s, dt);
            let mut sys = gen_sys(st, rhss[r].clone(), t0, &y0_for(&rhss[r]), rep.clone());
            probe_start(false, 1_000_000);
            ctx.step();
            sys.walk();
            for k in 0..sys.history.len() {
                let t = sys.history.time[k];
                if t <= t0 {
                    continue;
                }
                let want = sys.f(t, &sys.row(k));
                ensure!(close_y(&sys.drow(k), &want, 1e-9), "record {k} (t={t}): recorded derivatives {:?}, the model gives {:?} for the recorded states", sys.drow(k), want);
                ctx.state(H::new().f(t).fs(&sys.drow(k)).done());
            }
            Ok(())
        }),
        harness("example systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let bc = ctx.flag("with boundary");
            let rep = schedule(ctx, 0.0, &[0.0, 0.3], &[0.25, 0.04], more);
            let dt = *ctx.pick("dt", &[0.005, 0.03]);
            if *rep.last().unwrap() <= 0.0 {
                return ctx.skip();
            }
            let (h1, h2) = *ctx.pick("h", &[(5.0, 5.0), (0.3, 11.0)]);
            let st = conf(ctx, s, dt);
            let mut rows: Vec<[f64; 9]> = vec![];
            let caps;
            ctx.step();
            macro_rules! go {
                ($y:expr) => {{
                    $y.h12.h = h1;
                    $y.h23.h = h2;
                    $y.walk();
                    for k in 0..$y.history.len() {
                        rows.push([$y.history.time[k], $y.m1.history.temp[k], $y.m2.history.temp[k], $y.m3.history.temp[k], $y.m1.history.dtemp[k], $y.m2.history.dtemp[k], $y.m3.history.dtemp[k], $y.h12.history.q[k], $y.h23.history.q[k]]);
                    }
                }};
            }
            if bc {
                let mut y = System3TMWithBC { solver_type: st, t_report: rep, ..Default::default() };
                go!(y);
                caps = (f64::INFINITY, y.m2.c, y.m3.c);
            } else {
                let mut y = System3TM { solver_type: st, t_report: rep, ..Default::default() };
                go!(y);
                caps = (y.m1.c, y.m2.c, y.m3.c);
            }
            for (k, r) in rows.iter().enumerate() {
                let [t, a, b, c, da, db, dc, q1, q2] = *r;
                if t <= 0.0 {
                    continue;
                }
                let (e1, e2) = (h1 * (a - b), h2 * (b - c));
                ensure!(close(q1, e1, 1e-10) && close(q2, e2, 1e-10), "record {k}: recorded flows {q1}, {q2}; the recorded temperatures give {e1}, {e2}");
                let w = [-e1 / caps.0, (e1 - e2) / caps.1, e2 / caps.2];
                ensure!(close_y(&[da, db, dc], &w, 1e-10), "record {k}: recorded derivatives {:?}; the recorded temperatures give {:?}", [da, db, dc], w);
                ctx.state(H::new().fs(r).done());
            }
            Ok(())
        }),
    ]);
    v
}

// ---------------------------------------------------------------- C23
pub fn c23(th: bool) -> Vec<Harness> {
    let more = if th { 3 } else { 2 };
    let stages = [1u64, 2, 2, 2, 4, 4, 6];
    vec![
        harness("fixed: work bound", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let r = ctx.choose("model", 6);
            let t0 = *ctx.pick("t0", &[0.0, -5.0, 1e3, 1e6]);
            let rep = schedule(ctx, t0, &[0.0, 0.4, -0.5], &[0.25, 1.0, 0.013, 30.0], more);
            let dt = *ctx.pick("dt", &[0.1, 0.25, 0.7, 0.01, 100.0]);
            if *rep.last().unwrap() <= t0 {
                return ctx.skip();
            }
            // the same in a time unit so small that a whole run takes less than any usual threshold
            let u = *ctx.pick("time unit", &[1.0, 1e-21, 1e-150]);
            let (t0, dt, rep) = (t0 * u, dt * u, rep.iter().map(|r| r * u).collect::<Vec<f64>>());
            let rhs = [smooth(), Rhs { kind: JUMP, p: vec![t0 + 0.41 * u, 0.0, 1e6] }, Rhs { kind: ZERO, p: vec![] }, Rhs { kind: HUGE, p: vec![1e300] }, Rhs { kind: NAN_AFTER, p: vec![t0 + 0.2 * u] }, Rhs { kind: SPIKE, p: vec![t0 + 0.3 * u, 1e-5 * u, 1e9] }][r].clone();
            let mut steps = 0u64;
            let mut t = t0;
            for x in &rep {
                if *x > t {
                    steps += ((*x - t) / dt).ceil() as u64 + 1;
                    t = *x;
                }
            }
            let mut sys = gen_sys(fixed(s, dt), rhs, t0, &Y0, rep.clone());
            probe_start(false, (stages[s] + 2) * steps * 2 + 50);
            ctx.step();
            sys.walk();
            let e = probe_evals();
            ensure!(e <= (stages[s] + 2) * steps, "{e} model evaluations for at most {steps} steps of a {}-stage method", stages[s]);
            ctx.state(H::new().u(e).fs(&sys.history.time).done());
            Ok(())
        }),
        harness("adaptive: progress", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let t0 = *ctx.pick("t0", &[0.0, -5.0, 1e3, 1e6]);
            let r = ctx.choose("model", 8);
            let rep = schedule(ctx, t0, &[0.0, 0.4], &[0.25, 1.0, 5.0], more);
            let (rtol, atol) = *ctx.pick("tolerances", &[(1e-5, 1e-9), (1e-3, 0.0), (0.0, 1e-6), (1e-7, 1e-9)]);
            let mi = *ctx.pick("max_iter", &[5u8, 1, 0, 2, 20, 60, 255]);
            let dt0 = *ctx.pick("dt init", &[0.1, 30.0, 1e-6]);
            let dtm = *ctx.pick("dt max", &[10.0, 0.2]);
            if *rep.last().unwrap() <= t0 || (r == 7 && rtol == 0.0) {
                return ctx.skip(); // nothing to walk, or a tolerance below the rounding error of the numbers
            }
            let u = *ctx.pick("time unit", &[1.0, 1e-21, 1e-150]);
            let (t0, dt0, dtm, rep) = (t0 * u, dt0 * u, dtm * u, rep.iter().map(|r| r * u).collect::<Vec<f64>>());
            let rhs = [
                smooth(),
                Rhs { kind: JUMP, p: vec![t0 + 0.411 * u, 0.0, 1.0] },
                Rhs { kind: JUMP, p: vec![t0 + 0.411 * u, 1.0, 1e6] },
                Rhs { kind: ZERO, p: vec![] },
                Rhs { kind: SPIKE, p: vec![t0 + 0.3 * u, 1e-3 * u, 1e6] },
                Rhs { kind: STIFF, p: vec![100.0] },
                Rhs { kind: CONST, p: vec![1.0, -3.0] },
                Rhs { kind: HUGE, p: vec![1e100] },
                ][r]
                .clone();
            let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, mi, rtol, atol, false, false)), rhs, t0, &Y0, rep.clone());
            // far above what any terminating case needs (measured maximum on the pinned tree is reported in DESIGN.md)
            probe_start(false, PROGRESS_BUDGET);
            ctx.step();
            let r2 = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sys.walk()));
            if r2.is_err() {
                let e = probe_evals();
                let msg = format!("after {e} model evaluations the walk is at t={:?} of {:?}, step size {:?}", sys.state.time, rep.last().unwrap(), sys.conf().unwrap().state.dt);
                // identified by the input: solver, model, tolerances, iteration limit, start time
                return Err(Fail { key: format!("adaptive-stall solver={} model={} t0={:?} rtol={:?} atol={:?} max_iter={}", SOLVERS[s], r, t0, rtol, atol, mi), msg });
            }
            ensure!(sys.state.time >= *rep.last().unwrap() - 1e-9 * u, "walk returned at {} before {}", sys.state.time, rep.last().unwrap());
            ensure!(sys.history.len() == rep.len(), "record count");
            ctx.state(H::new().fs(&sys.y()).fs(&sys.history.time).done());
            Ok(())
        }),
    ]
}
pub const PROGRESS_BUDGET: u64 = 2_000_000;

#[allow(dead_code)]
fn unused() -> R {
    fail!("{:?}", Conductance::default())
}
