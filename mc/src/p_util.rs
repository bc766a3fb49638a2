//! C20 numeric helpers against their definitions, C11 history containers against a plain list of records.
use crate::engine::*;
use crate::systems::{NodeState, NodeStateHistoryVec};
use crate::{ensure, fail};
use dess::prelude::*;
use dess_examples::components::*;
use serde::{Deserialize, Serialize};

const VALS: [f64; 27] = [
    0.0, -0.0, 1.0, -1.0, 0.1, 0.3, -0.7, 2.0, 1e-3, 5.0, 7.25, 10.0, 100.0, 365.25, 1e6, -1e6, 1e-9, 1e-300, 1e300, -1e300, 3.3333333333333335, 0.9999999999999999, 1.0000000000000002, 123456.789, -40.0, 86400.0,
    5e-324,
];

fn check_linspace(ctx: &mut Ctx, a: f64, b: f64, n: usize) -> R {
    ctx.step();
    let v = Vec::linspace(a, b, n);
    ensure!(v.len() == n, "linspace({a:?}, {b:?}, {n}) has {} elements", v.len());
    if n == 0 {
        return Ok(());
    }
    ensure!(v[0] == a, "linspace({a:?}, {b:?}, {n}) starts at {:?}", v[0]);
    if n > 1 {
        ensure!(v[n - 1] == b, "linspace({a:?}, {b:?}, {n}) ends at {:?}", v[n - 1]);
    }
    let scale = a.abs().max(b.abs());
    for k in 0..n {
        let f = if n > 1 { k as f64 / (n - 1) as f64 } else { 0.0 };
        let want = a * (1.0 - f) + b * f;
        ensure!((v[k] - want).abs() <= 1e-14 * scale + 1e-322 * n as f64, "linspace({a:?}, {b:?}, {n})[{k}] is {:?}, expected {want:?}", v[k]);
    }
    if n > 1 && (b - a).abs() / (n - 1) as f64 > 1e-13 * scale + 1e-320 {
        for w in v.windows(2) {
            ensure!((w[1] - w[0]) * (b - a).signum() > 0.0, "linspace({a:?}, {b:?}, {n}) is not monotone");
        }
    }
    ctx.state(H::new().fs(&v).done());
    Ok(())
}

/// the definition, evaluated without overflow; None when rounding could decide otherwise
fn eq_def(a: f64, b: f64, eps: f64) -> Option<bool> {
    let s = (a.abs().max(b.abs())).max(f64::MIN_POSITIVE);
    let k = if s > 1e300 { 2f64.powi(-60) } else if s < 1e-290 { 2f64.powi(200) } else { 1.0 };
    let (x, y) = (a * k, b * k);
    let (d, m) = ((y - x).abs(), (x + y).abs());
    if d == 0.0 {
        return Some(eps > 0.0);
    }
    let lim = |q: f64, e: f64| -> Option<bool> { if (q - e).abs() <= 1e-12 * e { None } else { Some(q < e) } };
    // absolute; d is exact for close numbers
    let ab = lim(d, eps * k);
    let re = if m == 0.0 {
        Some(false)
    } else if m < 1e-14 * x.abs().max(y.abs()) {
        if d / m > 1e6 * eps { Some(false) } else { None }
    } else {
        lim(d / m, eps)
    };
    match (ab, re) {
        (Some(true), _) | (_, Some(true)) => Some(true),
        (Some(false), Some(false)) => Some(false),
        _ => None,
    }
}
fn check_eq(ctx: &mut Ctx, a: f64, b: f64, eps: Option<f64>) -> R {
    ctx.step();
    let r = almost_eq(a, b, eps);
    let e = eps.unwrap_or(1e-8);
    ensure!(r == almost_eq(b, a, eps), "almost_eq({a:?}, {b:?}, {eps:?}) is not symmetric");
    ensure!(almost_eq(a, a, eps) && almost_eq(b, b, eps), "almost_eq is false between {a:?} or {b:?} and itself (epsilon {e:?})");
    if let Some(w) = eq_def(a, b, e) {
        ensure!(r == w, "almost_eq({a:?}, {b:?}, {eps:?}) is {r}, by definition {w}");
    }
    ctx.state(H::new().f(a).f(b).f(e).u(r as u64).done());
    Ok(())
}

pub fn c20(th: bool) -> Vec<Harness> {
    let nmax = if th { 400 } else { 60 };
    vec![
        harness("linspace", move |ctx| {
            let a = *ctx.pick("start", &VALS);
            let b = *ctx.pick("stop", &VALS);
            if !(b - a).is_finite() || (a != b && (b - a).abs() < 1e-305) {
                return ctx.skip(); // outside the range of the number format
            }
            let n = if ctx.flag("large") { *ctx.pick("n", &[100usize, 101, 257, 1000, 4097]) } else { ctx.choose("n", nmax) };
            check_linspace(ctx, a, b, n)
        }),
        harness("linspace, every count", move |ctx| {
            let (a, b) = *ctx.pick("range", &[(0.0, 1.0), (-1.0, 2.3), (10.0, 0.1), (0.0, 0.3), (1e3, 1e3 + 7.7)]);
            let n = ctx.choose("n", if th { 6000 } else { 1500 });
            check_linspace(ctx, a, b, n)
        }),
        harness("diff", move |ctx| {
            let n = ctx.choose("length", if th { 7 } else { 6 });
            let vals = [0.0, 1.0, -2.5, 0.1, 1e300, -1e-300, 3.0];
            let v: Vec<f64> = (0..n).map(|_| *ctx.pick("x", &vals)).collect();
            ctx.step();
            let d = v.diff();
            ensure!(d.len() == n.saturating_sub(1), "{} differences of {n} elements", d.len());
            for k in 0..d.len() {
                ensure!(d[k] == v[k + 1] - v[k], "difference {k} of {v:?} is {:?}", d[k]);
            }
            ctx.state(H::new().fs(&d).done());
            Ok(())
        }),
        harness("diff, long", move |ctx| {
            let n = ctx.choose("length", if th { 4000 } else { 600 });
            let v: Vec<f64> = (0..n).map(|k| ((k * 7919) % 101) as f64 * 0.37 - k as f64).collect();
            ctx.step();
            let d = v.diff();
            ensure!(d.len() == n.saturating_sub(1) && (0..d.len()).all(|k| d[k] == v[k + 1] - v[k]), "differences of a vector of {n} elements");
            ctx.state(H::new().fs(&d).done());
            Ok(())
        }),
        harness("as many points as single precision counts", move |ctx| {
            let n = (1usize << 24) + *ctx.pick("n - 2^24", if th { &[6usize, 1 << 23][..] } else { &[6usize][..] });
            let v = Vec::linspace(0.0, (n - 1) as f64, n);
            ctx.step();
            ensure!(v.len() == n, "{} elements instead of {n}", v.len());
            if let Some(k) = (0..n).find(|k| (v[*k] - *k as f64).abs() > 1e-6) {
                fail!("linspace(0, {}, {n})[{k}] is {:?}", n - 1, v[k]);
            }
            let d = v.diff();
            ensure!(d.len() == n - 1 && (0..d.len()).all(|k| d[k] == v[k + 1] - v[k]), "differences of a vector of {n} elements");
            ctx.state(H::new().u(n as u64).done());
            Ok(())
        }),
        harness("very long vectors", move |ctx| {
            let n = *ctx.pick("n", if th { &[10_000usize, 32_769, 65_537, 100_001, 1_000_003][..] } else { &[10_000usize, 65_537, 300_001][..] });
            let (a, b) = *ctx.pick("range", &[(0.0, 1.0), (10.0, 0.1), (-3e5, 7e5)]);
            check_linspace(ctx, a, b, n)?;
            let v: Vec<f64> = (0..n).map(|k| ((k * 7919) % 101) as f64 * 0.37 - k as f64).collect();
            let d = v.diff();
            ensure!(d.len() == n - 1 && (0..d.len()).all(|k| d[k] == v[k + 1] - v[k]), "differences of a vector of {n} elements");
            Ok(())
        }),
        harness("almost_eq, pairs", move |ctx| {
            let vals: Vec<f64> = VALS.iter().copied().chain([f64::MAX, -f64::MAX, 1.7e308, 1e308, 1e-8, 2e-8, 0.5, -0.5, 1.0 + 1e-8, 1.0 + 3e-8, 1e8, 1e8 + 1.0]).collect();
            let a = *ctx.pick("a", &vals);
            let b = *ctx.pick("b", &vals);
            let eps = *ctx.pick("epsilon", &[None, Some(1e-8), Some(1e-3), Some(0.5), Some(2.0), Some(1e-15), Some(1e-100), Some(1e10)]);
            if a.abs() < 1e-200 && b.abs() < 1e-200 && eps.unwrap_or(1.0) < 1e-90 {
                return ctx.skip();
            }
            check_eq(ctx, a, b, eps)
        }),
        harness("almost_eq, around the threshold", move |ctx| {
            let a = *ctx.pick("a", &[1.0, -3.7, 1e-9, 123.0, 1e9, 1e307, 1e-30, -2e20, 1e-8]);
            let eps = *ctx.pick("epsilon", &[None, Some(1e-3), Some(0.1), Some(1e-12), Some(0.9)]);
            let e = eps.unwrap_or(1e-8);
            let f = *ctx.pick("factor", &[0.0, 0.3, 0.9, 0.999, 1.001, 1.1, 1.9, 1.999, 2.001, 2.1, 5.0]);
            let sg = *ctx.pick("sign", &[1.0, -1.0]);
            let b = if ctx.flag("absolute") { a + sg * f * e } else { a * (1.0 + sg * f * e) };
            let b = if ctx.flag("negate") { -b } else { b };
            check_eq(ctx, a, b, eps)
        }),
    ]
}

// ---------------------------------------------------------------- C11
#[derive(HistoryVec, Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub struct Wide {
    pub a: f64,
    pub b: f64,
    pub c: Option<f64>,
    pub name: String,
    pub list: Vec<f64>,
    pub flag: bool,
    pub inner: NodeState,
    pub n: u8,
}
#[derive(HistoryVec, Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub struct Single {
    pub only: Vec<u32>,
}
#[derive(HistoryVec, Copy, Clone, Debug, PartialEq, PartialOrd, Serialize, Deserialize)]
pub struct Quad {
    pub z: f64,
    pub y: f64,
    pub x: f64,
    pub w: f64,
}

trait Rec: Clone + PartialEq + std::fmt::Debug {
    fn make(k: usize) -> Self;
}
trait Hist: Clone + PartialEq + std::fmt::Debug + Default {
    type S: Rec;
    fn new_() -> Self;
    fn push_(&mut self, s: Self::S);
    fn pop_(&mut self) -> Option<Self::S>;
    fn clear_(&mut self);
    fn len_(&self) -> usize;
    fn empty_(&self) -> bool;
    /// lengths of the columns
    fn lens(&self) -> Vec<usize>;
    /// record k put together from the columns
    fn at(&self, k: usize) -> Self::S;
    fn json(&self) -> String;
}
macro_rules! hist {
    ($H:ident, $S:ident, |$k:ident| {$($f:ident : $v:expr),+ $(,)?}) => {
        impl Rec for $S {
            fn make($k: usize) -> Self { $S { $($f: $v),+ } }
        }
        impl Hist for $H {
            type S = $S;
            fn new_() -> Self { $H::new() }
            fn push_(&mut self, s: $S) { self.push(s) }
            fn pop_(&mut self) -> Option<$S> { self.pop() }
            fn clear_(&mut self) { self.clear() }
            fn len_(&self) -> usize { self.len() }
            fn empty_(&self) -> bool { self.is_empty() }
            fn lens(&self) -> Vec<usize> { vec![$(self.$f.len()),+] }
            fn at(&self, k: usize) -> $S { $S { $($f: self.$f[k].clone()),+ } }
            fn json(&self) -> String { self.to_json() }
        }
    };
}
hist!(SystemStateHistoryVec, SystemState, |k| { i: 3 * k + 1, time: 0.5 + k as f64 });
hist!(ThermalMassStateHistoryVec, ThermalMassState, |k| { temp: 20.5 + k as f64, dtemp: -1.0 - k as f64 });
hist!(ConductanceStateHistoryVec, ConductanceState, |k| { q: 0.25 + k as f64 });
hist!(NodeStateHistoryVec, NodeState, |k| { x: 1.5 + k as f64, dx: -7.0 - k as f64 });
hist!(SolverStateHistoryVec, SolverState, |k| { dt: 0.1 + k as f64, n_iter: k as u8 + 2, norm_err: if k % 2 == 0 { Some(1e-3 + k as f64) } else { None }, norm_err_rel: if k % 3 == 1 { Some(1e-6 + k as f64) } else { None }, t_curr: 100.0 + k as f64, states: vec![k as f64; k % 4] });
hist!(WideHistoryVec, Wide, |k| { a: k as f64 + 0.5, b: -(k as f64) - 0.25, c: if k % 2 == 1 { Some(k as f64) } else { None }, name: "r".repeat(k % 3), list: (0..k % 4).map(|x| x as f64).collect(), flag: k % 2 == 0, inner: NodeState { x: k as f64, dx: 2.5 }, n: k as u8 });
hist!(SingleHistoryVec, Single, |k| { only: vec![k as u32; k % 3] });
hist!(QuadHistoryVec, Quad, |k| { z: k as f64 + 0.1, y: k as f64 + 0.2, x: k as f64 + 0.3, w: k as f64 + 0.4 });

fn agree<T: Hist>(ctx: &mut Ctx, h: &T, m: &[T::S], what: &str) -> R {
    ensure!(h.len_() == m.len(), "after {what}: length {} for {} records", h.len_(), m.len());
    ensure!(h.empty_() == m.is_empty(), "after {what}: is_empty is {} for {} records", h.empty_(), m.len());
    ensure!(h.lens().iter().all(|l| *l == m.len()), "after {what}: columns have lengths {:?} for {} records", h.lens(), m.len());
    for k in 0..m.len() {
        ensure!(h.at(k) == m[k], "after {what}: record {k} is {:?}, pushed {:?}", h.at(k), m[k]);
    }
    ctx.state(H::new().b(h.json().as_bytes()).done());
    Ok(())
}
fn ops<T: Hist>(ctx: &mut Ctx, depth: usize) -> R {
    let start = ctx.choose("from", 3);
    let mut h = match start {
        0 => T::new_(),
        1 => T::default(),
        _ => T::new_().clone(),
    };
    let mut m: Vec<T::S> = vec![];
    let mut next = 0usize;
    agree(ctx, &h, &m, "creation")?;
    for _ in 0..depth {
        ctx.step();
        match ctx.choose("op", 5) {
            0 => {
                let s = T::S::make(next);
                next += 1;
                h.push_(s.clone());
                m.push(s);
                agree(ctx, &h, &m, "push")?;
            }
            1 => {
                let (a, b) = (h.pop_(), m.pop());
                ensure!(a == b, "pop returned {a:?}, expected {b:?}");
                agree(ctx, &h, &m, "pop")?;
            }
            2 => {
                h.clear_();
                m.clear();
                agree(ctx, &h, &m, "clear")?;
            }
            3 => {
                // the same record once more
                let s = T::S::make(0);
                h.push_(s.clone());
                m.push(s);
                agree(ctx, &h, &m, "push of an equal record")?;
            }
            _ => {
                // a copy is independent
                let before = h.clone();
                ensure!(before == h, "copy differs");
                let mut c = h.clone();
                c.push_(T::S::make(77));
                c.pop_();
                c.pop_();
                agree(ctx, &h, &m, "changing a copy")?;
            }
        }
    }
    Ok(())
}
pub fn c11(th: bool) -> Vec<Harness> {
    let d = if th { 9 } else { 7 };
    macro_rules! hs {
        ($($T:ident),+) => { vec![$(harness(stringify!($T), move |ctx| ops::<$T>(ctx, d))),+] };
    }
    let mut v = hs!(SystemStateHistoryVec, ThermalMassStateHistoryVec, ConductanceStateHistoryVec, NodeStateHistoryVec, SolverStateHistoryVec, WideHistoryVec, SingleHistoryVec, QuadHistoryVec);
    v.push(harness("long sequences", move |ctx| {
        // n pushes, m pops, clear, refill
        let n = ctx.choose("pushes", 260);
        let p = *ctx.pick("pops", &[0usize, 1, 2, 100, 300]);
        let mut h = SolverStateHistoryVec::new();
        let mut m = vec![];
        for k in 0..n {
            let s = SolverState::make(k % 200);
            h.push(s.clone());
            m.push(s);
        }
        for _ in 0..p {
            let (a, b) = (h.pop(), m.pop());
            if a != b {
                fail!("pop returned {a:?}, expected {b:?}");
            }
        }
        ctx.step();
        agree(ctx, &h, &m, "pushes and pops")?;
        h.clear();
        ensure!(h.is_empty() && h.pop().is_none(), "not empty after clear");
        h.push(SolverState::make(3));
        agree(ctx, &h, &[SolverState::make(3)], "refill")
    }));
    v.push(harness("very long histories", move |ctx| {
        // beyond any size at which a container might change its ways
        fn go<T: Hist>(ctx: &mut Ctx, n: usize) -> R {
            let (mut h, mut m) = (T::new_(), vec![]);
            for k in 0..n {
                let s = T::S::make(k % 251);
                h.push_(s.clone());
                m.push(s);
            }
            ctx.step();
            agree(ctx, &h, &m, "many pushes")?;
            while let Some(b) = m.pop() {
                let a = h.pop_();
                ensure!(a.as_ref() == Some(&b), "with {} records pop returned {a:?}, expected {b:?}", m.len() + 1);
                ensure!(h.len_() == m.len(), "{} records after a pop, expected {}", h.len_(), m.len());
            }
            ensure!(h.pop_().is_none() && h.empty_(), "not empty after as many pops as pushes");
            Ok(())
        }
        let n = *ctx.pick("pushes", if th { &[1000usize, 1025, 4097, 32769, 65537, 70000, 300000][..] } else { &[1025usize, 4097, 70000][..] });
        match ctx.choose("container", 4) {
            0 => go::<SystemStateHistoryVec>(ctx, n),
            1 => go::<ThermalMassStateHistoryVec>(ctx, n),
            2 => go::<SolverStateHistoryVec>(ctx, n),
            _ => go::<WideHistoryVec>(ctx, n),
        }
    }));
    v
}
