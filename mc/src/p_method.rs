//! C03 fixed-step methods, C04 embedded pairs: the step maps are compared with the named tableaus on every rooted
//! tree (elementary differential) up to the node bound, and on linear and nonlinear systems.
use crate::engine::*;
use crate::refmodel::*;
use crate::systems::*;
use crate::{ensure, fail};
use dess::prelude::*;

/// a right-hand side realising one rooted tree: node v feeds its parent, root in slot[0]; 'time leaves' feed t itself
fn tree(ctx: &mut Ctx, max_n: usize, t0: f64, slots: &dyn Fn(usize) -> usize) -> (Rhs, Vec<usize>, f64) {
    let n = 1 + ctx.choose("nodes-1", max_n);
    let mut parent = vec![0usize; n];
    for v in 1..n {
        parent[v] = ctx.choose("parent", v);
    }
    let mut tl = vec![0.0; n];
    for v in 1..n {
        if !parent.iter().skip(1).any(|p| *p == v) && ctx.flag("time leaf") {
            tl[v] = 1.0;
        }
    }
    // density: gamma(t) = product over nodes of the size of the subtree
    let mut size = vec![1usize; n];
    for v in (1..n).rev() {
        size[parent[v]] += size[v];
    }
    let gamma: f64 = size.iter().map(|s| *s as f64).product();
    let mut p = vec![t0, n as f64];
    p.extend((0..n).map(|v| slots(v) as f64));
    p.extend((0..n).map(|v| if v == 0 { -1.0 } else { parent[v] as f64 }));
    p.extend(tl);
    ((Rhs { kind: TREE, p }), size, gamma)
}
fn f_of(rhs: &Rhs) -> impl Fn(f64, &Y) -> Y {
    let r = rhs.clone();
    move |t, y| {
        let mut d = [0.0; N];
        rhs_eval(r.kind, &r.p, t, y, &mut d);
        d
    }
}
fn direct(sys: &mut GenSys, s: usize, h: f64) {
    match s {
        0 => sys.euler(&h),
        1 => sys.heun(&h),
        2 => sys.midpoint(&h),
        3 => sys.ralston(&h),
        _ => sys.rk4fixed(&h),
    }
}
fn step_fixed(ctx: &mut Ctx, s: usize, rhs: &Rhs, t0: f64, y0: &Y, h: f64, via: usize, tol: f64) -> Result<Y, Fail> {
    let f = f_of(rhs);
    let want = add(y0, &rk(&tableau(s), &f, t0, y0, h).0);
    // the step size is the configured one, or the configured one is cut by the report time
    let mut sys = gen_sys(fixed(s, if via == 1 { h * 3.0 } else { h }), rhs.clone(), t0, y0, vec![t0 + h]);
    probe_start(false, 100);
    ctx.step();
    if via == 2 {
        direct(&mut sys, s, h);
    } else {
        sys.walk();
    }
    let y = sys.y();
    ctx.state(H::new().fs(&y).f(sys.state.time).done());
    ensure!(close_y(&y, &want, tol), "one {} step of {h} from t={t0} gives {:?}, the method gives {:?}", SOLVERS[s], y, want);
    ensure!((sys.state.time - (t0 + h)).abs() <= 1e-15 * (t0.abs() + h) * 4.0, "time after a step of {h} from {t0} is {}", sys.state.time);
    Ok(y)
}

pub fn c03(th: bool) -> Vec<Harness> {
    let max_n = if th { 6 } else { 5 };
    let mut v = crate::p_wide::harnesses(false);
    v.extend(crate::p_wide::magnitudes("fixed", th));
    v.push(stage_patterns("fixed", th));
    v.extend(vec![
        harness("trees, one step", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let rot = ctx.choose("slot rotation", N);
            let rev = ctx.flag("slots reversed");
            let h = *ctx.pick("h", &[1.0, 0.5, 2.0, 0.0009765625]);
            let t0 = *ctx.pick("t0", &[0.0, -1.5, 64.0]);
            let slots = move |v: usize| if rev { (N + rot - v) % N } else { (rot + v) % N };
            let (rhs, size, gamma) = tree(ctx, max_n, t0, &slots);
            let y = step_fixed(ctx, s, &rhs, t0, &[0.0; N], h, 0, 1e-12)?;
            // order condition: exact flow of the root is h^n / gamma
            let n = size.len();
            if n <= tableau(s).order {
                let e = h.powi(n as i32) / gamma;
                ensure!((y[slots(0)] - e).abs() <= 1e-8 * e.abs().max(1e-300), "order condition of a tree with {n} nodes: {} instead of {e}", y[slots(0)]);
            }
            Ok(())
        }),
        harness("trees, shortened and direct steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let via = 1 + ctx.choose("shortened by the report time / method called directly", 2);
            let h = *ctx.pick("h", &[1.0, 0.37]);
            let t0 = *ctx.pick("t0", &[0.0, 2.5]);
            let (rhs, _, _) = tree(ctx, max_n, t0, &|v| v);
            step_fixed(ctx, s, &rhs, t0, &[0.0; N], h, via, 1e-12)?;
            Ok(())
        }),
        harness("linear systems, several steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let vals: &[f64] = if th { &[0.0, 1.0, -0.5, 2.0] } else { &[0.0, 1.0, -0.5] };
            let a: Vec<f64> = (0..4).map(|_| *ctx.pick("a", vals)).collect();
            let b: Vec<f64> = (0..2).map(|_| *ctx.pick("b", &[0.0, 1.0])).collect();
            let c: Vec<f64> = (0..2).map(|_| *ctx.pick("c", &[0.0, -0.7])).collect();
            let h = *ctx.pick("h", &[0.25, 0.1]);
            let t0 = *ctx.pick("t0", &[0.0, 3.0]);
            let mut p = vec![2.0];
            p.extend(&a);
            p.extend(&b);
            p.extend(&c);
            let rhs = Rhs { kind: LINEAR, p };
            let y0: Y = [1.0, -2.0, 0.5, 0.0, 0.0, 7.0];
            let rep = vec![t0 + 2.0 * h, t0 + 2.5 * h, t0 + 5.0 * h];
            let f = f_of(&rhs);
            let want = walk_fixed(s, &f, t0, &y0, h, &rep);
            let mut sys = gen_sys(fixed(s, h), rhs, t0, &y0, rep.clone());
            probe_start(false, 1000);
            ctx.step();
            sys.walk();
            ensure!(sys.history.len() == 3, "record count");
            for k in 0..3 {
                ensure!(close_y(&sys.row(k), &want[k].1, 1e-10), "t={}: {:?}, the {} method gives {:?}", rep[k], sys.row(k), SOLVERS[s], want[k].1);
                ctx.state(H::new().fs(&sys.row(k)).done());
            }
            Ok(())
        }),
        harness("nonlinear systems, several steps", move |ctx| {
            let s = ctx.choose("solver", FIXED);
            let a = *ctx.pick("a", &[0.8, -1.3, 0.0]);
            let b = *ctx.pick("b", &[0.5, 0.0, -4.0]);
            let kind = ctx.choose("model", 4);
            let rhs = match kind {
                0 => Rhs { kind: SMOOTH, p: vec![a, b] },
                1 => Rhs { kind: LOGISTIC, p: vec![0.5 + a.abs()] },
                2 => Rhs { kind: STIFF, p: vec![3.0 + a + b] },
                _ => Rhs { kind: QUAD, p: vec![a, b, 0.5, -0.3] },
            };
            let h = *ctx.pick("h", &[0.25, 0.07, 0.013]);
            let t0 = *ctx.pick("t0", &[0.0, -3.1, 40.0]);
            let y0 = if kind == 1 { [0.3, 0.8, 0.05, 0.0, 0.5, 1.0] } else { [0.3, -1.2, 2.0, 0.0, -0.4, 1.1] };
            let rep: Vec<f64> = [0.0, 2.0, 2.3, 7.0, 11.0].iter().map(|k| t0 + k * h).collect();
            let f = f_of(&rhs);
            let want = walk_fixed(s, &f, t0, &y0, h, &rep);
            let mut sys = gen_sys(fixed(s, h), rhs, t0, &y0, rep.clone());
            probe_start(false, 1000);
            ctx.step();
            sys.walk();
            for k in 0..rep.len() {
                ensure!(close_y(&sys.row(k), &want[k].1, 1e-9), "t={}: {:?}, the {} method gives {:?}", rep[k], sys.row(k), SOLVERS[s], want[k].1);
                ctx.state(H::new().fs(&sys.row(k)).done());
            }
            Ok(())
        }),
    ]);
    v
}

// ---------------------------------------------------------------- C04
fn check_err(st: &SolverState, d: &Y, dh: &Y, what: &str) -> R {
    let scale = norm(d).max(norm(dh));
    let err = norm(&sub(d, dh));
    let tol = 1e-12 * scale + 1e-9 * err + 1e-300;
    let Some(e) = st.norm_err else { fail!("{what}: no absolute error reported") };
    ensure!((e - err).abs() <= tol, "{what}: reported absolute error {e:e}, norm of the difference of the embedded solutions {err:e}");
    let nd = norm(d);
    if nd == 0.0 {
        ensure!(st.norm_err_rel.is_none(), "{what}: relative error {:?} reported for a zero increment", st.norm_err_rel);
    } else if nd > 1e-12 * scale {
        let Some(r) = st.norm_err_rel else { fail!("{what}: no relative error reported for an increment of norm {nd:e}") };
        ensure!((r - e / nd).abs() <= 1e-9 * (e / nd) + 1e-12, "{what}: reported relative error {r:e}, absolute error over increment {:e}", e / nd);
    }
    Ok(())
}
fn step_adaptive(ctx: &mut Ctx, s: usize, rhs: &Rhs, t0: f64, y0: &Y, h: f64, via: usize, tol: f64) -> Result<Y, Fail> {
    let f = f_of(rhs);
    let (d, dh) = rk(&tableau(s), &f, t0, y0, h);
    let want = add(y0, &d);
    // one attempt only, so that the step has exactly size h; h comes from the step size, the limit, or the report time
    let (dt0, dtm, end) = match via {
        0 => (h, 1e3, h),
        1 => (h * 5.0, h, h),
        _ => (h * 7.0, h * 9.0, h),
    };
    let save = via == 1;
    let mut sys = gen_sys(adaptive(s, aconf(dt0, dtm, 1, 1e-5, 1e-9, save, save)), rhs.clone(), t0, y0, vec![t0 + end]);
    probe_start(false, 100);
    ctx.step();
    if via == 3 {
        let used = if s == 5 { sys.rk23_bogacki_shampine(&h) } else { sys.rk45_cash_karp(&h) };
        ensure!((used - h).abs() <= 1e-15 * h * 4.0, "the step reports a used size of {used}, its limit was {h}");
    } else {
        sys.walk();
    }
    let y = sys.y();
    ctx.state(H::new().fs(&y).f(sys.state.time).done());
    ensure!(close_y(&y, &want, tol), "one {} step of {h} from t={t0} gives {:?}, the method gives {:?}", SOLVERS[s], y, want);
    ensure!((sys.state.time - (t0 + h)).abs() <= 1e-15 * (t0.abs() + h) * 4.0, "time after a step of {h} from {t0} is {}", sys.state.time);
    let st = &sys.conf().unwrap().state;
    check_err(st, &d, &dh, "solver state")?;
    if save {
        let hv = &sys.conf().unwrap().history;
        ensure!(hv.len() == 1, "{} log entries for one step", hv.len());
        ensure!(hv.norm_err[0] == st.norm_err && hv.norm_err_rel[0] == st.norm_err_rel, "the log entry has other errors than the solver state");
        ensure!(close_y(&hv.states[0], &want, tol), "logged states {:?}, method {:?}", hv.states[0], want);
    }
    Ok(y)
}

pub fn c04(th: bool) -> Vec<Harness> {
    let max_n = if th { 6 } else { 5 };
    let mut v = crate::p_wide::harnesses(true);
    v.extend(crate::p_wide::magnitudes("adaptive", th));
    v.push(stage_patterns("adaptive", th));
    v.extend(vec![
        harness("trees, one step", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let rot = ctx.choose("slot rotation", N);
            let rev = ctx.flag("slots reversed");
            let h = *ctx.pick("h", &[1.0, 0.5, 2.0, 0.0009765625]);
            let t0 = *ctx.pick("t0", &[0.0, -1.5, 64.0]);
            let slots = move |v: usize| if rev { (N + rot - v) % N } else { (rot + v) % N };
            let (rhs, size, gamma) = tree(ctx, max_n, t0, &slots);
            let y = step_adaptive(ctx, s, &rhs, t0, &[0.0; N], h, 0, 1e-12)?;
            let n = size.len();
            if n <= tableau(s).order {
                let e = h.powi(n as i32) / gamma;
                ensure!((y[slots(0)] - e).abs() <= 1e-8 * e.abs().max(1e-300), "order condition of a tree with {n} nodes: {} instead of {e}", y[slots(0)]);
            }
            Ok(())
        }),
        harness("trees, cut and direct steps", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let via = 1 + ctx.choose("cut by dt_max / by the report time / method called directly", 3);
            let h = *ctx.pick("h", &[1.0, 0.37]);
            let t0 = *ctx.pick("t0", &[0.0, 2.5]);
            let (rhs, _, _) = tree(ctx, max_n, t0, &|v| v);
            step_adaptive(ctx, s, &rhs, t0, &[0.0; N], h, via, 1e-12)?;
            Ok(())
        }),
        harness("error norms", move |ctx| {
            // piecewise constant derivatives in time: increments and errors that vanish in one solution or the other
            let s = 5 + ctx.choose("solver", 2);
            let n = 8;
            let vals: &[f64] = if th { &[0.0, 1.0, -1.0] } else { &[0.0, 1.0] };
            let scale = *ctx.pick("scale", &[1.0, 1e-20, 1e15]);
            let mut p = vec![0.125, -0.0101];
            for _ in 0..n {
                p.push(*ctx.pick("cell", vals) * scale);
            }
            p.push(*ctx.pick("end", &[0.0, 1.0, -7.0]) * scale);
            let rhs = Rhs { kind: CELLS, p };
            let via = ctx.choose("via", 2);
            step_adaptive(ctx, s, &rhs, 0.0, &[0.0; N], 1.0, via, 1e-12)?;
            Ok(())
        }),
        harness("linear systems, one step", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let vals: &[f64] = if th { &[0.0, 1.0, -0.5, 2.0] } else { &[0.0, 1.0, -0.5] };
            let a: Vec<f64> = (0..4).map(|_| *ctx.pick("a", vals)).collect();
            let b: Vec<f64> = (0..2).map(|_| *ctx.pick("b", &[0.0, 1.0])).collect();
            let c: Vec<f64> = (0..2).map(|_| *ctx.pick("c", &[0.0, -0.7])).collect();
            let h = *ctx.pick("h", &[0.25, 1.5]);
            let t0 = *ctx.pick("t0", &[0.0, 3.0]);
            let via = ctx.choose("via", 4);
            let mut p = vec![2.0];
            p.extend(&a);
            p.extend(&b);
            p.extend(&c);
            step_adaptive(ctx, s, &Rhs { kind: LINEAR, p }, t0, &[1.0, -2.0, 0.5, 0.0, 0.0, 7.0], h, via, 1e-12)?;
            Ok(())
        }),
        harness("every accepted step of a run", move |ctx| {
            let s = 5 + ctx.choose("solver", 2);
            let a = *ctx.pick("a", &[0.8, -1.3]);
            let b = *ctx.pick("b", &[0.5, 0.0, -4.0]);
            let kind = ctx.choose("model", 4);
            let rhs = match kind {
                0 => Rhs { kind: SMOOTH, p: vec![a, b] },
                1 => Rhs { kind: LOGISTIC, p: vec![0.5 + a.abs()] },
                2 => Rhs { kind: STIFF, p: vec![8.0 + a + b] },
                _ => Rhs { kind: QUAD, p: vec![a, b, 0.5, -0.3] },
            };
            let (rt, at, mi) = *ctx.pick("settings", &[(1e-5, 1e-9, 5u8), (1e-2, 1e-3, 1), (1e-7, 1e-12, 3), (1e-3, 1e-9, 50)]);
            let t0 = *ctx.pick("t0", &[0.0, -3.1]);
            let dt0 = *ctx.pick("dt init", &[0.1, 2.0]);
            let y0 = if kind == 1 { [0.3, 0.8, 0.05, 0.0, 0.5, 1.0] } else { [0.3, -1.2, 2.0, 0.0, -0.4, 1.1] };
            let rep = vec![t0, t0 + 0.8, t0 + 0.83, t0 + 2.0];
            let mut sys = gen_sys(adaptive(s, aconf(dt0, 10.0, mi, rt, at, true, true)), rhs.clone(), t0, &y0, rep);
            probe_start(false, 100_000);
            ctx.step();
            sys.walk();
            let f = f_of(&rhs);
            let tab = tableau(s);
            let mut y = y0;
            let hv = &sys.conf().unwrap().history;
            for k in 0..hv.len() {
                let (t, h) = (hv.t_curr[k], hv.dt[k]);
                let (d, dh) = rk(&tab, &f, t, &y, h);
                let want = add(&y, &d);
                ensure!(close_y(&hv.states[k], &want, 1e-11), "step {k} (t={t}, dt={h}): {:?}, the method gives {:?}", hv.states[k], want);
                let st = SolverState { norm_err: hv.norm_err[k], norm_err_rel: hv.norm_err_rel[k], ..Default::default() };
                let scale = y.iter().fold(1.0f64, |m, v| m.max(v.abs()));
                // cancellation in the states limits how exactly tiny errors are determined
                let e = norm(&sub(&d, &dh));
                if e > 1e-10 * scale {
                    ensure!(close(st.norm_err.unwrap_or(-1.0) / e, 1.0, 1e-4), "step {k}: reported absolute error {:?}, embedded difference {e:e}", st.norm_err);
                    ensure!(close(st.norm_err_rel.unwrap_or(-1.0) / (e / norm(&d)), 1.0, 1e-4), "step {k}: reported relative error {:?}, ratio {:e}", st.norm_err_rel, e / norm(&d));
                }
                y = std::array::from_fn(|i| hv.states[k][i]);
                ctx.state(H::new().f(t).fs(&y).done());
            }
            ensure!(!hv.is_empty() && y == sys.y(), "the last logged states are not the final states");
            Ok(())
        }),
    ]);
    v
}

/// Rates that vanish at any choice of stage times: each step against the method, each recorded rate against the model.
/// `what`: "fixed", "adaptive" (the methods) or "rates" (recorded derivatives)
pub fn stage_patterns(what: &'static str, th: bool) -> Harness {
    harness("rates vanishing at stage times", move |ctx| {
        let s = match what {
            "fixed" => ctx.choose("solver", FIXED),
            "adaptive" => 5 + ctx.choose("solver", 2),
            _ => ctx.choose("solver", 7),
        };
        let (t0, h) = *ctx.pick("t0, h", &[(0.0, 1.0), (-8.0, 0.25), (3.0, 0.0009765625)]);
        let mode = ctx.choose("components moving", 4);
        let mut p = vec![t0, h, mode as f64];
        for _ in 0..9 {
            p.push(*ctx.pick("rate at stage", if th { &[0.0, 1.0, -3.0][..] } else { &[0.0, 1.7][..] }));
        }
        let rhs = Rhs { kind: STAGES, p };
        let rep = vec![t0 + h, t0 + 2.0 * h];
        let st = if s < FIXED { fixed(s, h) } else { adaptive(s, aconf(h, h, 1, 1e6, 1e6, false, false)) };
        let mut sys = gen_sys(st, rhs.clone(), t0, &[0.0; N], rep.clone());
        probe_start(false, 1000);
        ctx.step();
        sys.walk();
        ensure!(sys.history.len() == 2, "{} records of two reports", sys.history.len());
        let f = f_of(&rhs);
        let (mut t, mut y) = (t0, [0.0; N]);
        for k in 0..2 {
            let (row, drow) = (sys.row(k), sys.drow(k));
            if what == "rates" {
                let want = f(sys.history.time[k], &row);
                ensure!(drow == want, "{}, record {k} (t={}): recorded derivatives {drow:?}, the model gives {want:?} for the recorded states", SOLVERS[s], sys.history.time[k]);
            } else {
                let want = add(&y, &rk(&tableau(s), &f, t, &y, h).0);
                ensure!((0..N).all(|i| (row[i] - want[i]).abs() <= 1e-13 * h), "{}, step {k} of {h} from {t}: {row:?}, the method gives {want:?}", SOLVERS[s]);
            }
            t = sys.history.time[k];
            y = row;
            ctx.state(H::new().f(t).fs(&y).fs(&drow).done());
        }
        Ok(())
    })
}
