//! Systems of other sizes (C03, C04): the step maps with 0..=65 contributing components, each component in turn being
//! the one that moves, against the textbook tableaus. Other magnitudes (C03, C04, C18): the same systems in units of time
//! and state over many decades, far from the time origin, over many reports.
use crate::engine::*;
use crate::refmodel::*;
use crate::systems::*;
use crate::{ensure, fail};
use dess::prelude::*;
use serde::{Deserialize, Serialize};

/// all components alike and independent: equal ones stay equal
const ALIKE: usize = usize::MAX - 1;
/// y' for any number of components; `act`: which of them moves (usize::MAX: all)
pub fn wide_rhs(act: usize, t: f64, y: &[f64]) -> Vec<f64> {
    let n = y.len();
    (0..n)
        .map(|i| {
            if act == usize::MAX {
                0.8 * (y[(i + 1) % n] + 0.1 * i as f64).sin() - 0.2 * y[i] + 0.4 * t
            } else if act == ALIKE {
                0.8 * (y[i] + 0.3).sin() - 0.2 * y[i] + 0.4 * t
            } else if act == i {
                0.5 * y[i] * y[i] + t
            } else {
                0.0
            }
        })
        .collect()
}
/// units of time and of the states, and the time origin
#[common_derives]
#[derive(Copy)]
pub struct Units {
    pub tau: f64,
    pub amp: f64,
    pub origin: f64,
}
impl Default for Units {
    fn default() -> Self {
        Units { tau: 1.0, amp: 1.0, origin: 0.0 }
    }
}
/// the same problem in other units
pub fn scaled_rhs(u: &Units, act: usize, t: f64, y: &[f64]) -> Vec<f64> {
    let z: Vec<f64> = y.iter().map(|y| y / u.amp).collect();
    wide_rhs(act, (t - u.origin) / u.tau, &z).iter().map(|d| d * u.amp / u.tau).collect()
}
pub trait Wide {
    fn y(&self) -> Vec<f64>;
    fn run(&mut self, s: usize, h: f64, direct: bool);
    fn solver(&self) -> &SolverTypes;
    fn rows(&self) -> Vec<Vec<f64>>;
    fn drows(&self) -> Vec<Vec<f64>>;
    fn times(&self) -> &[f64];
    fn units(&mut self, u: Units);
    fn time(&self) -> f64;
}
macro_rules! wide {
    ($name:ident, $n:expr, $($f:ident),*) => {
        #[solver(
            fn update_derivs(&mut self) {
                self.reset_derivs();
                probe_hit(self.state.time);
                let y: Vec<f64> = vec![$(self.$f.state.x),*];
                let _d = scaled_rhs(&self.units, self.act, self.state.time, &y);
                let mut _i = 0;
                $(self.$f.step_deriv(_d[_i]); _i += 1;)*
            }
        )]
        #[derive(HistoryMethods, BareClone, Default)]
        #[common_derives]
        pub struct $name {
            pub solver_type: SolverTypes,
            pub act: usize,
            pub units: Units,
            $(#[use_state] pub $f: Node,)*
            pub t_report: Vec<f64>,
            pub state: SystemState,
            pub history: SystemStateHistoryVec,
        }
        impl Wide for $name {
            fn y(&self) -> Vec<f64> { vec![$(self.$f.state.x),*] }
            fn run(&mut self, s: usize, h: f64, direct: bool) {
                if !direct {
                    return self.walk();
                }
                match s {
                    0 => self.euler(&h),
                    1 => self.heun(&h),
                    2 => self.midpoint(&h),
                    3 => self.ralston(&h),
                    4 => self.rk4fixed(&h),
                    5 => { self.rk23_bogacki_shampine(&h); }
                    _ => { self.rk45_cash_karp(&h); }
                }
            }
            fn solver(&self) -> &SolverTypes { &self.solver_type }
            fn rows(&self) -> Vec<Vec<f64>> {
                (0..self.history.len()).map(|_k| vec![$(self.$f.history.x[_k]),*]).collect()
            }
            fn drows(&self) -> Vec<Vec<f64>> {
                (0..self.history.len()).map(|_k| vec![$(self.$f.history.dx[_k]),*]).collect()
            }
            fn times(&self) -> &[f64] { &self.history.time }
            fn units(&mut self, u: Units) { self.units = u; }
            fn time(&self) -> f64 { self.state.time }
        }
        impl $name {
            pub fn boxed(st: SolverTypes, act: usize, t0: f64, _y0: &[f64], rep: Vec<f64>) -> Box<dyn Wide> {
                let mut _i = 0;
                let mut w = $name { solver_type: st, act, t_report: rep, ..Default::default() };
                w.state.time = t0;
                $(w.$f = node(_y0[_i]); _i += 1;)*
                Box::new(w)
            }
        }
    };
}
wide!(W0, 0,);
wide!(W1, 1, q0);
wide!(W2, 2, q0, q1);
wide!(W3, 3, q0, q1, q2);
wide!(W4, 4, q0, q1, q2, q3);
wide!(W5, 5, q0, q1, q2, q3, q4);
wide!(W7, 7, q0, q1, q2, q3, q4, q5, q6);
wide!(W8, 8, q0, q1, q2, q3, q4, q5, q6, q7);
wide!(W9, 9, q0, q1, q2, q3, q4, q5, q6, q7, q8);
wide!(W10, 10, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9);
wide!(W15, 15, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14);
wide!(W16, 16, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15);
wide!(W17, 17, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16);
wide!(W31, 31, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16, q17, q18, q19, q20, q21, q22, q23, q24, q25, q26, q27, q28, q29, q30);
wide!(W32, 32, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16, q17, q18, q19, q20, q21, q22, q23, q24, q25, q26, q27, q28, q29, q30, q31);
wide!(W33, 33, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16, q17, q18, q19, q20, q21, q22, q23, q24, q25, q26, q27, q28, q29, q30, q31, q32);
wide!(W64, 64, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16, q17, q18, q19, q20, q21, q22, q23, q24, q25, q26, q27, q28, q29, q30, q31, q32, q33, q34, q35, q36, q37, q38, q39, q40, q41, q42, q43, q44, q45, q46, q47, q48, q49, q50, q51, q52, q53, q54, q55, q56, q57, q58, q59, q60, q61, q62, q63);
wide!(W65, 65, q0, q1, q2, q3, q4, q5, q6, q7, q8, q9, q10, q11, q12, q13, q14, q15, q16, q17, q18, q19, q20, q21, q22, q23, q24, q25, q26, q27, q28, q29, q30, q31, q32, q33, q34, q35, q36, q37, q38, q39, q40, q41, q42, q43, q44, q45, q46, q47, q48, q49, q50, q51, q52, q53, q54, q55, q56, q57, q58, q59, q60, q61, q62, q63, q64);
pub const SIZES: [usize; 18] = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 65];
fn make(n: usize, st: SolverTypes, act: usize, t0: f64, y0: &[f64], rep: Vec<f64>) -> Box<dyn Wide> {
    match n {
        0 => W0::boxed(st, act, t0, y0, rep),
        1 => W1::boxed(st, act, t0, y0, rep),
        2 => W2::boxed(st, act, t0, y0, rep),
        3 => W3::boxed(st, act, t0, y0, rep),
        4 => W4::boxed(st, act, t0, y0, rep),
        5 => W5::boxed(st, act, t0, y0, rep),
        7 => W7::boxed(st, act, t0, y0, rep),
        8 => W8::boxed(st, act, t0, y0, rep),
        9 => W9::boxed(st, act, t0, y0, rep),
        10 => W10::boxed(st, act, t0, y0, rep),
        15 => W15::boxed(st, act, t0, y0, rep),
        16 => W16::boxed(st, act, t0, y0, rep),
        17 => W17::boxed(st, act, t0, y0, rep),
        31 => W31::boxed(st, act, t0, y0, rep),
        32 => W32::boxed(st, act, t0, y0, rep),
        33 => W33::boxed(st, act, t0, y0, rep),
        64 => W64::boxed(st, act, t0, y0, rep),
        65 => W65::boxed(st, act, t0, y0, rep),
        _ => unreachable!(),
    }
}
pub fn rk_n(tab: &Tab, f: &dyn Fn(f64, &[f64]) -> Vec<f64>, t: f64, y: &[f64], h: f64) -> (Vec<f64>, Vec<f64>) {
    let mut k: Vec<Vec<f64>> = vec![];
    for i in 0..tab.b.len() {
        let mut yi = y.to_vec();
        for (j, kj) in k.iter().enumerate() {
            for n in 0..y.len() {
                yi[n] += h * tab.a[i].get(j).copied().unwrap_or(0.) * kj[n];
            }
        }
        k.push(f(t + tab.c[i] * h, &yi));
    }
    let comb = |b: &[f64]| (0..y.len()).map(|n| h * b.iter().zip(&k).map(|(b, k)| b * k[n]).sum::<f64>()).collect();
    (comb(&tab.b), tab.bh.as_ref().map(|b| comb(b)).unwrap_or_default())
}
pub fn harnesses(adaptive_ones: bool) -> Vec<Harness> {
    vec![harness("systems of other sizes", move |ctx| {
        let n = *ctx.pick("components", &SIZES);
        let act = match ctx.choose("moving component (0: all)", n + 1) {
            0 => usize::MAX,
            k => k - 1,
        };
        let s = if adaptive_ones { 5 + ctx.choose("solver", 2) } else { ctx.choose("solver", FIXED) };
        let direct = ctx.flag("direct call");
        let h = *ctx.pick("h", &[0.7, 0.11]);
        let t0 = *ctx.pick("t0", &[0.0, 1.5]);
        let y0: Vec<f64> = (0..n).map(|i| 1.0 - 0.07 * i as f64 + 0.003 * (i * i) as f64).collect();
        let st = if s < FIXED { fixed(s, h) } else { adaptive(s, aconf(h, 1e3, 1, 1e-5, 1e-9, true, true)) };
        let tab = tableau(s);
        let f = |t: f64, y: &[f64]| wide_rhs(act, t, y);
        let (d, dh) = rk_n(&tab, &f, t0, &y0, h);
        let want: Vec<f64> = y0.iter().zip(&d).map(|(a, b)| a + b).collect();
        let mut w = make(n, st, act, t0, &y0, vec![t0 + h]);
        probe_start(false, 1000);
        ctx.step();
        w.run(s, h, direct);
        let y = w.y();
        ctx.state(H::new().fs(&y).f(h).done());
        ensure!(close_y(&y, &want, 1e-12), "one {} step of {h} with {n} components gives {y:?}, the method gives {want:?}", SOLVERS[s]);
        ensure!((w.time() - (t0 + h)).abs() <= 1e-14, "time {} after a step of {h} from {t0}", w.time());
        if !direct {
            let rows = w.rows();
            ensure!(rows.len() == 1 && close_y(&rows[0], &y, 0.0), "recorded states {rows:?}, final states {y:?}");
        }
        if let Some(c) = conf_of(w.solver()) {
            let err = norm(&d.iter().zip(&dh).map(|(a, b)| a - b).collect::<Vec<f64>>());
            let nd = norm(&d);
            let Some(e) = c.state.norm_err else { fail!("no absolute error reported") };
            ensure!((e - err).abs() <= 1e-12 * nd + 1e-9 * err, "{n} components, {act} moves: reported absolute error {e:e}, norm of the difference {err:e}");
            match c.state.norm_err_rel {
                Some(r) => ensure!(nd > 0.0 && (r - err / nd).abs() <= 1e-9 * (err / nd) + 1e-12, "{n} components, {act} moves: reported relative error {r:e}, ratio {:e}", err / nd),
                None => ensure!(nd == 0.0, "no relative error for an increment of norm {nd:e}"),
            }
            if !direct {
                ensure!(c.history.len() == 1 && c.history.states[0] == y, "logged states {:?}, states {y:?}", c.history.states);
            }
        }
        Ok(())
    })]
}

fn pow10(k: i32) -> f64 {
    format!("1e{k}").parse().unwrap()
}
/// start values by kind: mixed, all negative, with zeros and equal neighbours, very unequal
fn start(kind: usize, n: usize, amp: f64) -> Vec<f64> {
    (0..n)
        .map(|i| {
            amp * match kind {
                0 => 1.0 - 0.37 * (i % 8) as f64,
                1 => -0.5 - 0.21 * (i % 8) as f64,
                2 => [0.0, 0.0, 0.75, 0.75][i % 4],
                _ => [1.0, 3e-5, -2e-3, 40.0][i % 4],
            }
        })
        .collect()
}
/// one walk in the given units: every record is recomputed from the one before it
#[allow(clippy::too_many_arguments)]
fn in_units(ctx: &mut Ctx, s: usize, n: usize, kind: usize, u: Units, h: f64, per: f64, reports: usize, t0: f64, what: &str) -> Result<(), Fail> {
    let y0 = start(kind, n, u.amp);
    let act = if kind == 2 { ALIKE } else { usize::MAX };
    let mut rep = vec![];
    let mut t = t0;
    for _ in 0..reports {
        t += per * h;
        rep.push(t);
    }
    let st = if s < FIXED { fixed(s, h) } else { adaptive(s, aconf(h, h, 1, 1e6, 0.0, false, false)) };
    let mut w = make(n, st, act, t0, &y0, rep.clone());
    w.units(u);
    probe_start(false, 1_000_000);
    ctx.step();
    w.run(s, h, false);
    let (rows, drows, times) = (w.rows(), w.drows(), w.times().to_vec());
    ensure!(rows.len() == reports && drows.len() == reports && times.len() == reports, "{} records of {reports} reports", rows.len());
    let f = |t: f64, y: &[f64]| scaled_rhs(&u, act, t, y);
    if what == "rates" {
        for k in 0..reports {
            let d = f(times[k], &rows[k]);
            ensure!((0..n).all(|i| drows[k][i] == d[i]), "record {k} (t={:e}): recorded derivatives {:?}, the model gives {d:?} for the recorded states {:?}", times[k], drows[k], rows[k]);
        }
        ctx.state(H::new().fs(&drows[reports - 1]).done());
        return Ok(());
    }
    let tab = tableau(s);
    let (mut t, mut y) = (t0, y0);
    // rounding of time itself moves the model's argument
    let tol = 1e-12 + 4e-16 * ((t0 - u.origin).abs() + rep[reports - 1].abs()) / u.tau;
    for k in 0..reports {
        let (mut last, mut lt) = ((vec![], vec![]), t);
        while t < rep[k] {
            let h = h.min(rep[k] - t);
            last = rk_n(&tab, &f, t, &y, h);
            lt = h;
            y = y.iter().zip(&last.0).map(|(a, b)| a + b).collect();
            t += h;
        }
        ensure!((t - times[k]).abs() <= 4.0 * f64::EPSILON * t.abs(), "record {k} is at {:e}, the method's steps end at {t:e}", times[k]);
        let scale = y.iter().fold(u.amp, |m, v| m.max(v.abs()));
        for i in 0..n {
            ensure!((rows[k][i] - y[i]).abs() <= tol * scale, "{} in units of {:e} (time) and {:e} (state), record {k} (t={t:e}): state {i} is {:e}, the method gives {:e}", SOLVERS[s], u.tau, u.amp, rows[k][i], y[i]);
        }
        if k + 1 == reports {
            if let Some(c) = conf_of(w.solver()) {
                let err = norm(&last.0.iter().zip(&last.1).map(|(a, b)| (a - b) / u.amp).collect::<Vec<f64>>());
                let nd = norm(&last.0.iter().map(|a| a / u.amp).collect::<Vec<f64>>());
                // a last step at the resolution of time says nothing
                if lt > 1e-6 * h {
                    let Some(e) = c.state.norm_err else { fail!("no absolute error reported") };
                    ensure!((e / u.amp - err).abs() <= 10.0 * tol * nd.max(1.0) + 1e-9 * err, "reported absolute error {e:e}, norm of the difference {:e}", err * u.amp);
                    let Some(r) = c.state.norm_err_rel else { fail!("no relative error reported") };
                    ensure!((r - err / nd).abs() <= 10.0 * tol * (1.0 + 1.0 / nd) + 1e-9 * err / nd, "reported relative error {r:e}, ratio {:e}", err / nd);
                }
            }
        }
        // the next record from this one
        t = times[k];
        y = rows[k].clone();
    }
    ctx.state(H::new().fs(&y).f(t).done());
    Ok(())
}
/// `what`: "fixed", "adaptive" (the methods) or "rates" (recorded derivatives)
pub fn magnitudes(what: &'static str, th: bool) -> Vec<Harness> {
    fn pick(ctx: &mut Ctx, what: &str) -> usize {
        match what {
            "fixed" => ctx.choose("solver", FIXED),
            "adaptive" => 5 + ctx.choose("solver", 2),
            _ => ctx.choose("solver", 7),
        }
    }
    let (lo, step) = if th { (-15, 1) } else { (-12, 3) };
    let nexp = ((-2 * lo) / step + 1) as usize;
    vec![
        harness("other magnitudes", move |ctx| {
            let s = pick(ctx, what);
            let tau = pow10(lo + step * ctx.choose("unit of time", nexp) as i32);
            let amp = pow10(lo + step * ctx.choose("unit of state", nexp) as i32);
            let far = *ctx.pick("start", &[0.0, -2.5, 1e5]);
            let origin = if ctx.flag("model's own origin") { far * tau } else { 0.0 };
            let n = *ctx.pick("components", &[1, 3, 8]);
            let kind = ctx.choose("start values", 4);
            let h = *ctx.pick("h", &[0.3, 0.011, 0.0015]) * tau;
            let per = *ctx.pick("steps per report", &[1.0, 2.5]);
            in_units(ctx, s, n, kind, Units { tau, amp, origin }, h, per, 4, far * tau, what)
        }),
        harness("many reports", move |ctx| {
            let s = pick(ctx, what);
            let reports = *ctx.pick("reports", if th { &[12, 100, 300, 1100, 5000, 20000][..] } else { &[12, 100, 300, 1100][..] });
            let n = *ctx.pick("components", &[1, 3, 9]);
            let kind = ctx.choose("start values", 4);
            let per = *ctx.pick("steps per report", &[1.0, 0.4, 2.5]);
            let t0 = *ctx.pick("t0", &[0.0, -40.0]);
            in_units(ctx, s, n, kind, Units::default(), 0.125, per, reports, t0, what)
        }),
    ]
}

/// C05: step control of systems of other sizes
pub fn control(th: bool) -> Harness {
    harness("systems of other sizes", move |ctx| {
        let s = 5 + ctx.choose("solver", 2);
        let n = *ctx.pick("components", &[0, 1, 2, 3, 8, 9, 17, 33, 65]);
        let act = match ctx.choose("moving component (0: all)", 1 + if n == 0 { 0 } else { 2 }) {
            0 => usize::MAX,
            1 => 0,
            _ => n - 1,
        };
        let (rtol, atol) = *ctx.pick("tolerances", &[(1e-5, 1e-9), (0.0, 1e-4), (1e-6, 1e-12), (1e-2, 0.0)]);
        let mi = *ctx.pick("max_iter", &[1u8, 4, 200]);
        let dt0 = *ctx.pick("dt init", &[0.1, 3.0]);
        let dtm = *ctx.pick("dt max", &[0.2, 10.0]);
        let t0 = *ctx.pick("t0", &[0.0, -0.5]);
        let reports = *ctx.pick("reports", if th { &[1, 3, 200][..] } else { &[3, 200][..] });
        let rep: Vec<f64> = (1..=reports).map(|k| t0 + 0.9 * k as f64 / reports as f64).collect();
        let y0 = start(0, n, 1.0);
        let mut w = make(n, adaptive(s, aconf(dt0, dtm, mi, rtol, atol, true, true)), act, t0, &y0, rep.clone());
        probe_start(false, 1_000_000);
        ctx.step();
        w.run(s, 0.0, false);
        let c = conf_of(w.solver()).unwrap().clone();
        let f = |t: f64, y: &[f64]| wide_rhs(act, t, y);
        crate::p_adapt::monitor_n(ctx, s, &f, &c, t0, &y0, dt0, &rep, 1e-12)
    })
}

/// C06: the log of systems of other sizes, under all flag combinations
pub fn logs(th: bool) -> Harness {
    harness("systems of other sizes", move |ctx| {
        let s = 5 + ctx.choose("solver", 2);
        let n = *ctx.pick("components", if th { &SIZES[..] } else { &[0, 1, 2, 3, 4, 8, 9, 17, 33, 65][..] });
        let act = match ctx.choose("moving component (0: all)", 1 + if n == 0 { 0 } else { 2 }) {
            0 => usize::MAX,
            1 => 0,
            _ => n - 1,
        };
        let (rtol, atol) = *ctx.pick("tolerances", &[(1e-5, 1e-9), (0.0, 1e-4), (1e-2, 0.0)]);
        let mi = *ctx.pick("max_iter", &[1u8, 4, 200]);
        let dt0 = *ctx.pick("dt init", &[0.1, 3.0]);
        let t0 = *ctx.pick("t0", &[0.0, -0.5]);
        let reports = *ctx.pick("reports", if th { &[1, 3, 20, 200][..] } else { &[1, 3, 20][..] });
        let rep: Vec<f64> = (1..=reports).map(|k| t0 + 0.9 * k as f64 / reports as f64).collect();
        let y0 = start(0, n, 1.0);
        let f = |t: f64, y: &[f64]| wide_rhs(act, t, y);
        let tab = tableau(s);
        let mut full: Option<Box<dyn Wide>> = None;
        for (save, states) in [(true, true), (true, false), (false, true), (false, false)] {
            let mut w = make(n, adaptive(s, aconf(dt0, 0.2, mi, rtol, atol, save, states)), act, t0, &y0, rep.clone());
            probe_start(false, 1_000_000);
            ctx.step();
            w.run(s, 0.0, false);
            let c = conf_of(w.solver()).unwrap();
            let h = &c.history;
            ensure!([h.dt.len(), h.n_iter.len(), h.norm_err.len(), h.norm_err_rel.len(), h.t_curr.len(), h.states.len()].iter().all(|l| *l == h.len()), "{n} components: columns of the log have different lengths");
            let Some(full) = &full else {
                let rows = w.rows();
                let (mut t, mut y, mut rec) = (t0, y0.clone(), 0);
                for k in 0..h.len() {
                    ensure!((h.t_curr[k] - t).abs() <= 2.0 * f64::EPSILON * t.abs(), "{n} components: entry {k} starts at {:e}, the previous one ended at {t:e}", h.t_curr[k]);
                    let d = rk_n(&tab, &f, t, &y, h.dt[k]).0;
                    let z: Vec<f64> = y.iter().zip(&d).map(|(a, b)| a + b).collect();
                    ensure!(h.states[k].len() == n && close_y(&h.states[k], &z, 1e-11), "{n} components: entry {k} holds {:?}, the step leads to {z:?}", h.states[k]);
                    y = h.states[k].clone();
                    t = h.t_curr[k] + h.dt[k];
                    if rec < reports && t >= rep[rec] {
                        ensure!(rows[rec] == y && w.times()[rec] == t, "{n} components: record {rec} holds {:?} at {:e}, the log {y:?} at {t:e}", rows[rec], w.times()[rec]);
                        rec += 1;
                    }
                }
                ensure!(rec == reports && t == w.time() && y == w.y(), "{n} components: the log of {} entries ends at {t:e} with {y:?}, the run at {:e} with {:?}", h.len(), w.time(), w.y());
                let mean = h.dt.iter().sum::<f64>() / h.len() as f64;
                ensure!(c.dt_mean().is_some_and(|m| (m - mean).abs() <= 1e-12 * mean), "{n} components: mean step {:?}, expected {mean:e}", c.dt_mean());
                ctx.state(H::new().fs(&h.dt).fs(&y).done());
                full = Some(w);
                continue;
            };
            let a = conf_of(full.solver()).unwrap();
            let ha = &a.history;
            if save {
                ensure!(h.dt == ha.dt && h.t_curr == ha.t_curr && h.n_iter == ha.n_iter && h.norm_err == ha.norm_err && h.norm_err_rel == ha.norm_err_rel, "{n} components: the log without states differs from the log with states");
                ensure!(h.states.iter().all(|x| x.is_empty()), "{n} components: states are logged although saving them is off");
            } else {
                ensure!(h.is_empty() && h.states.is_empty(), "{n} components: {} entries logged although saving is off", h.len());
            }
            ensure!(a.state.dt == c.state.dt && a.state.n_iter == c.state.n_iter && full.y() == w.y() && full.rows() == w.rows() && full.times() == w.times() && full.time() == w.time(), "{n} components: the flags (save {save}, states {states}) change the run");
        }
        Ok(())
    })
}
