//! shapes: C12 bare copies, C13 saving, C14 state access, C15 connections, over generated definitions.
mod comps;
#[allow(unused_variables)]
mod gen;
mod gen_nets;
mod nets;
use comps::*;
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use eng::engine::*;
use eng::{ensure, fail};

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-13 * (1.0 + a.abs().max(b.abs()))
}
fn close_v(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y))
}
fn solver(s: usize) -> SolverTypes {
    let dt = 0.3;
    let c = AdaptiveSolverConfig { dt_max: 0.4, max_iter: 4, atol: 1e-7, rtol: 1e-3, save: s == 6, save_states: s == 6, state: SolverState { dt: 0.2, ..Default::default() }, history: Default::default() };
    match s {
        0 => SolverTypes::EulerFixed { dt },
        1 => SolverTypes::HeunsMethod { dt },
        2 => SolverTypes::MidpointMethod { dt },
        3 => SolverTypes::RalstonsMethod { dt },
        4 => SolverTypes::RK4Fixed { dt },
        5 => SolverTypes::RK23BogackiShampine(Box::new(c)),
        _ => SolverTypes::RK45CashKarp(Box::new(c)),
    }
}

/// everything the harness expects to find in a definition
#[derive(Clone, PartialEq, Debug)]
struct Model {
    parts: Vec<Vec<Leaf>>,
    own: Option<(usize, f64)>,
    rows: Rows,
    par: (f64, String),
    report: Vec<f64>,
    solver: Option<SolverTypes>,
}
fn read(y: &dyn Shape) -> Model {
    Model {
        parts: y.parts().iter().map(|p| p.leaves()).collect(),
        own: y.sys().map(|s| s.own()),
        rows: y.sys().map(|s| s.rows()).unwrap_or_default(),
        par: y.par(),
        report: y.sys().map(|s| s.report()).unwrap_or_default(),
        solver: y.sys().map(|s| s.solver()),
    }
}
fn diff(a: &Model, b: &Model) -> String {
    let mut d = vec![];
    for (k, (x, y)) in a.parts.iter().zip(&b.parts).enumerate() {
        for (j, (u, v)) in x.iter().zip(y).enumerate() {
            if u != v {
                d.push(format!("component {k} place {j}: is {u:?}, expected {v:?}"));
            }
        }
    }
    if a.own != b.own {
        d.push(format!("state is {:?}, expected {:?}", a.own, b.own));
    }
    if a.rows != b.rows {
        d.push(format!("history is {:?}, expected {:?}", a.rows, b.rows));
    }
    if (&a.par, &a.report, &a.solver) != (&b.par, &b.report, &b.solver) {
        d.push(format!("parameters are {:?}, expected {:?}", (&a.par, &a.report, &a.solver), (&b.par, &b.report, &b.solver)));
    }
    d.join("; ")
}
fn hash(y: &dyn Shape) -> u64 {
    H::new().b(y.name().as_bytes()).b(&y.bytes()).done()
}
/// give every field a distinct value
fn fill(y: &mut dyn Shape, v0: f64) {
    let mut v = v0;
    for (k, p) in y.parts_mut().into_iter().enumerate() {
        p.poke(&mut v);
        p.caps(1.5 + k as f64);
    }
    y.set_par(0.75 + v0, "tag");
    if let Some(s) = y.sys_mut() {
        s.set_own(0, 0.0);
        s.set_report(vec![0.5, 1.0, 1.7, 2.0]);
        s.set_solver(solver(1));
    }
}
fn record(m: &mut Model, marks: &[Mark]) {
    if let Some(o) = m.own {
        m.rows.push(o);
    }
    for (p, k) in m.parts.iter_mut().zip(marks) {
        if k.records() {
            for l in p.iter_mut().filter(|l| l.rec) {
                l.hist.push((l.x, l.d));
            }
        }
    }
}
fn all() -> Vec<fn() -> Box<dyn Shape>> {
    let mut v = gen::systems();
    v.extend(gen::groups());
    v
}

// ---------------------------------------------------------------- C13
fn c13(th: bool) -> Vec<Harness> {
    vec![
        harness("saves in all definitions", move |ctx| {
            let defs = all();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let mut m = read(&*y);
            let marks = y.marks();
            let mut v = 10.0;
            for n in 0..if th { 7 } else { 5 } {
                ctx.step();
                match ctx.choose("op", 4) {
                    0 => {
                        y.save();
                        record(&mut m, marks);
                    }
                    1 => {
                        for p in y.parts_mut() {
                            p.poke(&mut v);
                        }
                        if let Some(s) = y.sys_mut() {
                            let (i, t) = s.own();
                            s.set_own(i + 1, t + 0.25);
                        }
                        let r = read(&*y);
                        for (p, q) in m.parts.iter_mut().flatten().zip(r.parts.iter().flatten()) {
                            p.x = q.x;
                            p.d = q.d;
                        }
                        m.own = r.own;
                    }
                    2 => {
                        // unmarked components may have records of their own; they stay as they are
                        v += 1.0;
                        for p in y.parts_mut() {
                            p.stain(v);
                        }
                        for l in m.parts.iter_mut().flatten() {
                            l.hist.push((v, v));
                        }
                    }
                    _ => {
                        y = y.full();
                    }
                }
                let r = read(&*y);
                ensure!(r == m, "{} after {} operations: {}", y.name(), n + 1, diff(&r, &m));
                ctx.state(hash(&*y));
            }
            Ok(())
        }),
        harness("many saves", move |ctx| {
            let defs = all();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            let n = *ctx.pick("saves", if th { &[40usize, 150, 300, 1100, 5000][..] } else { &[40usize, 300, 1100][..] });
            let change = *ctx.pick("new values every so many saves", &[1usize, 2, 100, usize::MAX]);
            let v0 = *ctx.pick("first value", &[1.0, -700.0, 1e9]);
            fill(&mut *y, v0);
            let mut m = read(&*y);
            let marks = y.marks();
            let mut v = v0;
            for j in 0..n {
                if j % change == change - 1 {
                    for p in y.parts_mut() {
                        p.poke(&mut v);
                    }
                    if let Some(s) = y.sys_mut() {
                        let (i, t) = s.own();
                        s.set_own(i + 1, t + 0.25);
                    }
                    // only the current values change
                    let mut now: Vec<(f64, f64)> = vec![];
                    for p in y.parts() {
                        now.extend(p.leaves_now());
                    }
                    for (l, (x, d)) in m.parts.iter_mut().flatten().zip(now) {
                        l.x = x;
                        l.d = d;
                    }
                    m.own = y.sys().map(|s| s.own());
                }
                y.save();
                record(&mut m, marks);
            }
            ctx.step();
            let r = read(&*y);
            ensure!(r == m, "{} after {n} saves: {}", y.name(), diff(&r, &m).chars().take(2000).collect::<String>());
            ctx.state(hash(&*y));
            Ok(())
        }),
        harness("saves during a walk", move |ctx| {
            let defs = gen::systems();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            let s = ctx.choose("solver", 7);
            let before = ctx.choose("saves before", 2);
            fill(&mut *y, 1.0);
            y.sys_mut().unwrap().set_solver(solver(s));
            for _ in 0..before {
                y.save();
            }
            let m0 = read(&*y);
            let mut z = y.full();
            ctx.step();
            y.sys_mut().unwrap().walk();
            let m = read(&*y);
            let n = m.report.len();
            ensure!(m.rows.len() == before + n, "{}: {} records of its own for {n} reports", y.name(), m.rows.len());
            for ((p, q), k) in m.parts.iter().zip(&m0.parts).zip(y.marks()) {
                for (l, l0) in p.iter().zip(q) {
                    let want = if k.records() && l.rec { l0.hist.len() + n } else { l0.hist.len() };
                    ensure!(l.hist.len() == want, "{}: a {k:?} component has {} records, expected {want}", y.name(), l.hist.len());
                    ensure!(l.hist[..l0.hist.len()] == l0.hist[..], "earlier records changed");
                    if want > l0.hist.len() {
                        ensure!(l.hist[want - 1] == (l.x, l.d), "{}: the last record is not the final state", y.name());
                    }
                }
            }
            // record by record, by hand
            for _ in 0..n {
                let s = z.sys_mut().unwrap();
                let (i, _) = s.own();
                s.solve_step();
                let (_, t) = s.own();
                s.set_own(i + 1, t);
                z.save();
            }
            ensure!(z.bytes() == y.bytes(), "{}: driving the walk by hand differs: {}", y.name(), diff(&read(&*z), &m));
            ctx.state(hash(&*y));
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C14
/// the component's own behaviour
#[derive(Clone, Debug)]
struct C {
    kind: Kind,
    x: f64,
    d: f64,
    cap: f64,
}
impl C {
    fn set_state(&mut self, v: f64) {
        self.x = if self.kind == Kind::Ov { v + 0.125 } else { v };
    }
    fn step_state(&mut self, v: f64) {
        self.x += if self.kind == Kind::Ov { 2.0 * v } else { v };
    }
    fn step_by_dt(&mut self, dt: f64) {
        self.x += if self.kind == Kind::Ov { 0.5 } else { 1.0 } * dt * self.d;
    }
    fn set_deriv(&mut self, v: f64) {
        self.d = if self.kind == Kind::Ov { 0.75 * v } else { v };
    }
    fn step_deriv(&mut self, v: f64) {
        self.d += if self.kind == Kind::Ov { 3.0 * v } else { v };
    }
    fn storage(&self) -> f64 {
        if self.kind == Kind::Ov { 10.0 * self.cap } else { self.cap }
    }
}
fn c14(th: bool) -> Vec<Harness> {
    let defs = gen::systems();
    vec![
        harness("operations on all definitions", move |ctx| {
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let marks = y.marks();
            let name = y.name();
            let mut m = read(&*y);
            let idx: Vec<usize> = (0..marks.len()).filter(|k| marks[*k].uses()).collect();
            let kinds: Vec<Kind> = y.parts().iter().map(|p| p.kind()).collect();
            let mut c: Vec<C> = idx.iter().map(|k| C { kind: kinds[*k], x: m.parts[*k][0].x, d: m.parts[*k][0].d, cap: m.parts[*k][0].cap }).collect();
            let n = c.len();
            let vals = |b: f64| -> Vec<f64> { (0..n).map(|k| b * (1.0 + 0.75 * k as f64)).collect() };
            for step in 0..if th { 5 } else { 4 } {
                ctx.step();
                let op = ctx.choose("op", 12);
                let s = y.sys_mut().unwrap();
                let (i, mut t) = m.own.unwrap();
                match op {
                    0 | 1 => {
                        let v = vals(if op == 0 { 2.5 } else { -0.5 });
                        s.set_states(v.clone());
                        c.iter_mut().zip(v).for_each(|(c, v)| c.set_state(v));
                    }
                    2 => {
                        let v = vals(0.375);
                        s.step_states(v.clone());
                        c.iter_mut().zip(v).for_each(|(c, v)| c.step_state(v));
                    }
                    3 | 4 => {
                        let v = vals(if op == 3 { 1.5 } else { 0.0 });
                        s.set_derivs(&v);
                        c.iter_mut().zip(v).for_each(|(c, v)| c.set_deriv(v));
                    }
                    5 => {
                        let v = vals(-0.25);
                        s.step_derivs(v.clone());
                        c.iter_mut().zip(v).for_each(|(c, v)| c.step_deriv(v));
                    }
                    6 | 7 => {
                        let dt = if op == 6 { 0.25 } else { -1.5 };
                        s.step_states_by_dt(dt);
                        c.iter_mut().for_each(|c| c.step_by_dt(dt));
                        t += dt;
                    }
                    8 => {
                        s.reset_derivs();
                        c.iter_mut().for_each(|c| c.set_deriv(0.0));
                    }
                    9 => {
                        s.step_time(0.5);
                        t += 0.5;
                    }
                    10 => {
                        s.update_derivs();
                        c.iter_mut().for_each(|c| c.set_deriv(0.0));
                        let par = m.par.0;
                        for k in 0..n {
                            let x = c[k].x;
                            c[k].step_deriv(-0.5 * x + 0.125 * t + 0.1 * (k + 1) as f64 * par);
                        }
                        for k in 0..n.saturating_sub(1) {
                            let x = c[k + 1].x;
                            c[k].step_deriv(0.25 * x);
                        }
                    }
                    _ => y.save(),
                }
                if op == 11 {
                    record(&mut m, marks);
                }
                m.own = Some((i, t));
                // what the system shows
                let s = y.sys().unwrap();
                let want = [c.iter().map(|c| c.x).collect::<Vec<_>>(), c.iter().map(|c| c.d).collect(), c.iter().map(|c| c.storage()).collect()];
                for ((w, g), what) in want.iter().zip([s.states(), s.derivs(), s.storages()]).zip(["states", "derivatives", "storages"]) {
                    ensure!(close_v(w, &g), "{name}: {what} are {g:?} after {} operations, expected {w:?}", step + 1);
                }
                ensure!(s.own_seen() == s.own(), "the solver's view of the state differs");
                // what is in the components; everything else exactly as it was
                let r = read(&*y);
                for (k, c) in idx.iter().zip(&c) {
                    let l = &mut m.parts[*k][0];
                    let g = &r.parts[*k][0];
                    ensure!(close(g.x, c.x) && close(g.d, c.d), "{name}: component {k} holds {:?}, expected {:?}", (g.x, g.d), (c.x, c.d));
                    l.x = g.x;
                    l.d = g.d;
                }
                ensure!(close(r.own.unwrap().1, t), "{name}: time is {}, expected {t}", r.own.unwrap().1);
                m.own = Some((i, r.own.unwrap().1));
                // records are judged by C13
                m.rows = r.rows.clone();
                for (p, q) in m.parts.iter_mut().flatten().zip(r.parts.iter().flatten()) {
                    p.hist = q.hist.clone();
                }
                ensure!(r == m, "{name}: {}", diff(&r, &m));
                // keep following the implementation's own rounding
                for (c, k) in c.iter_mut().zip(&idx) {
                    c.x = r.parts[*k][0].x;
                    c.d = r.parts[*k][0].d;
                }
                ctx.state(hash(&*y));
            }
            Ok(())
        }),
        harness("storages of every magnitude", move |ctx| {
            let defs = gen::systems();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let (marks, name) = (y.marks(), y.name());
            const V: [f64; 9] = [f64::INFINITY, 0.0, f64::NAN, -2.0, 1e-300, 1e300, -0.0, f64::NEG_INFINITY, 1.0];
            let (v, w) = (*ctx.pick("storage", &V), *ctx.pick("storage of the others", &[2.5, f64::INFINITY, 0.0]));
            let which = ctx.choose("component", marks.len() + 1);
            for (k, p) in y.parts_mut().into_iter().enumerate() {
                p.caps(if k == which { v } else { w });
            }
            ctx.step();
            let m = read(&*y);
            let idx: Vec<usize> = (0..marks.len()).filter(|k| marks[*k].uses()).collect();
            let want: Vec<f64> = idx.iter().map(|k| { let l = &m.parts[*k][0]; C { kind: y.parts()[*k].kind(), x: l.x, d: l.d, cap: l.cap }.storage() }).collect();
            let got = y.sys().unwrap().storages();
            ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| a == b || a.is_nan() && b.is_nan()), "{name}: storages are {got:?}, expected {want:?}");
            let (x, d) = (y.sys().unwrap().states(), y.sys().unwrap().derivs());
            let held: Vec<(f64, f64)> = idx.iter().map(|k| (m.parts[*k][0].x, m.parts[*k][0].d)).collect();
            ensure!(x.into_iter().zip(d).collect::<Vec<_>>() == held, "{name}: shows other values than its components hold, with storages {want:?}");
            ctx.state(H::new().u(k as u64).fs(&got).done());
            Ok(())
        }),
        harness("values of every magnitude", move |ctx| {
            let defs = gen::systems();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let marks = y.marks();
            let name = y.name();
            let idx: Vec<usize> = (0..marks.len()).filter(|k| marks[*k].uses()).collect();
            let n = idx.len();
            const V: [f64; 19] = [0.0, -0.0, 1.0, -1.0, 2.5, -40.0, 1e-3, 0.9995, 1e-9, -1e-9, 1e9, -1e9, 1e-300, -1e300, 1e300, f64::INFINITY, 5e-324, f64::NEG_INFINITY, f64::NAN];
            let (a, b) = (*ctx.pick("held", &V), *ctx.pick("given", &V));
            // every component its own, all the same value, or a single one
            let pattern = ctx.choose("pattern", 4);
            let vals = |b: f64| -> Vec<f64> {
                (0..n)
                    .map(|k| match pattern {
                        0 => b,
                        1 => b * (1.0 + 0.75 * k as f64),
                        2 if k == 0 => b,
                        3 if k + 1 == n => b,
                        _ => 0.5 + k as f64,
                    })
                    .collect()
            };
            let dt = *ctx.pick("dt", &[0.25, 1e-9, -3.0]);
            let s = y.sys_mut().unwrap();
            s.set_states(vals(a));
            s.set_derivs(&vals(b));
            let t = 7.0;
            s.set_own(2, t);
            let m = read(&*y);
            let mut c: Vec<C> = idx.iter().map(|k| { let l = &m.parts[*k][0]; let kind = y.parts()[*k].kind(); C { kind, x: l.x, d: l.d, cap: l.cap } }).collect();
            for (c, (va, vb)) in c.iter().zip(vals(a).into_iter().zip(vals(b))) {
                let mut w = c.clone();
                w.set_state(va);
                w.set_deriv(vb);
                let same = |a: f64, b: f64| a.to_bits() == b.to_bits() || a.is_nan() && b.is_nan();
                ensure!(same(w.x, c.x) && same(w.d, c.d), "{name}: set to state {va:e} and derivative {vb:e}, holds {:e} and {:e}", c.x, c.d);
            }
            ctx.step();
            let s = y.sys_mut().unwrap();
            let mut time = t;
            match ctx.choose("op", 4) {
                0 => {
                    s.step_states(vals(b));
                    c.iter_mut().zip(vals(b)).for_each(|(c, v)| c.step_state(v));
                }
                1 => {
                    s.step_derivs(vals(a));
                    c.iter_mut().zip(vals(a)).for_each(|(c, v)| c.step_deriv(v));
                }
                2 => {
                    s.step_states_by_dt(dt);
                    c.iter_mut().for_each(|c| c.step_by_dt(dt));
                    time += dt;
                }
                _ => {
                    s.reset_derivs();
                    c.iter_mut().for_each(|c| c.set_deriv(0.0));
                }
            }
            // the same number, up to the rounding of one operation on these operands
            let eq = |x: f64, w: f64| x == w || (x.is_nan() && w.is_nan()) || (x - w).abs() <= 4.0 * f64::EPSILON * w.abs().max(a.abs().min(b.abs()) * 4.0).min(1e308);
            let r = read(&*y);
            for (k, c) in idx.iter().zip(&c) {
                let g = &r.parts[*k][0];
                ensure!(eq(g.x, c.x) && eq(g.d, c.d), "{name}: component {k} holds {:?}, expected {:?}", (g.x, g.d), (c.x, c.d));
            }
            let s = y.sys().unwrap();
            ensure!(s.own() == (2, time), "{name}: position is {:?}, expected {:?}", s.own(), (2, time));
            let seen: Vec<(u64, u64)> = s.states().iter().zip(s.derivs()).map(|(x, d)| (x.to_bits(), d.to_bits())).collect();
            let held: Vec<(u64, u64)> = idx.iter().map(|k| (r.parts[*k][0].x.to_bits(), r.parts[*k][0].d.to_bits())).collect();
            ensure!(seen == held, "{name}: shows other values than its components hold");
            for k in 0..marks.len() {
                if !marks[k].uses() {
                    let bits = |m: &Model| m.parts[k].iter().map(|l| (l.x.to_bits(), l.d.to_bits())).collect::<Vec<_>>();
                    ensure!(bits(&r) == bits(&m), "{name}: component {k}, which is not marked, changed");
                }
            }
            ctx.state(hash(&*y));
            Ok(())
        }),
        harness("adaptive settings", move |ctx| {
            let defs = gen::systems();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            fill(&mut *y, 1.0);
            let name = y.name();
            let s = y.sys_mut().unwrap();
            for _ in 0..2 {
                let sv = ctx.choose("solver", 7);
                s.set_solver(solver(sv));
                ctx.step();
                match (s.conf(), &solver(sv)) {
                    (Some(c), SolverTypes::RK23BogackiShampine(d)) | (Some(c), SolverTypes::RK45CashKarp(d)) => {
                        ensure!(c == **d, "{name}: shows other adaptive settings than its solver's");
                        let c = s.conf_mut();
                        ensure!(c.is_some(), "{name}: adaptive settings cannot be changed");
                        c.unwrap().rtol = 0.25;
                        let want = AdaptiveSolverConfig { rtol: 0.25, ..(**d).clone() };
                        ensure!(s.conf() == Some(want.clone()), "{name}: a changed setting is not seen");
                        match s.solver() {
                            SolverTypes::RK23BogackiShampine(e) | SolverTypes::RK45CashKarp(e) => ensure!(*e == want, "{name}: a changed setting does not reach the solver"),
                            _ => fail!("{name}: the solver changed"),
                        }
                    }
                    (None, SolverTypes::RK23BogackiShampine(_)) | (None, SolverTypes::RK45CashKarp(_)) => fail!("{name}: no adaptive settings with an adaptive solver"),
                    (Some(_), _) => fail!("{name}: adaptive settings with a fixed-step solver"),
                    (None, _) => ensure!(s.conf_mut().is_none(), "{name}: adaptive settings with a fixed-step solver"),
                }
                ctx.state(H::new().u(k as u64).u(sv as u64).done());
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C12
fn bare_model(m: &Model, marks: &[Mark]) -> Model {
    let mut b = m.clone();
    b.rows.clear();
    for (p, k) in b.parts.iter_mut().zip(marks) {
        if k.records() {
            p.iter_mut().filter(|l| l.rec).for_each(|l| l.hist.clear());
        }
    }
    b
}
fn touch(ctx: &mut Ctx, y: &mut dyn Shape, v: &mut f64) -> Result<(), Fail> {
    let n = if y.sys().is_some() { 6 } else { 3 };
    match ctx.choose("op", n) {
        0 => y.save(),
        1 => {
            for p in y.parts_mut() {
                p.poke(v);
                p.caps(*v);
            }
            y.set_par(-3.0, "other");
        }
        2 => {
            for p in y.parts_mut() {
                p.stain(*v);
            }
        }
        3 => {
            let s = y.sys_mut().unwrap();
            s.set_own(3, 1.75);
            s.set_report(vec![9.0]);
            s.push_row(7, 7.0);
            s.set_solver(solver(4));
        }
        4 => {
            let s = y.sys_mut().unwrap();
            if s.own().0 < s.report().len() {
                s.solve_step();
            }
        }
        _ => {
            let s = y.sys_mut().unwrap();
            let n = s.states().len();
            s.set_states(vec![1e6; n]);
            s.set_derivs(&vec![-1e6; n]);
            if let Some(c) = s.conf_mut() {
                c.rtol = 123.0;
                c.history.push(SolverState::default());
            }
        }
    }
    Ok(())
}
/// histories of a continued copy are the tail of the original's
fn tail_ok(orig: &Model, copy: &Model, at: &Model, marks: &[Mark]) -> Result<(), String> {
    if orig.rows[at.rows.len()..] != copy.rows[..] {
        return Err(format!("records {:?}, the original's later ones are {:?}", copy.rows, &orig.rows[at.rows.len()..]));
    }
    for (k, ((o, c), a)) in orig.parts.iter().zip(&copy.parts).zip(&at.parts).enumerate() {
        for ((o, c), a) in o.iter().zip(c).zip(a) {
            let skip = if marks[k].records() && o.rec { a.hist.len() } else { 0 };
            if (o.x, o.d, o.cap) != (c.x, c.d, c.cap) {
                return Err(format!("component {k} ends at {:?}, the original at {:?}", (c.x, c.d), (o.x, o.d)));
            }
            if o.hist[skip..] != c.hist[..] {
                return Err(format!("component {k} records {:?}, the original {:?}", c.hist, &o.hist[skip..]));
            }
        }
    }
    if (&orig.own, &orig.par, &orig.report, &orig.solver) != (&copy.own, &copy.par, &copy.report, &copy.solver) {
        return Err("position, parameters or solver differ at the end".into());
    }
    Ok(())
}
fn c12(th: bool) -> Vec<Harness> {
    let depth = if th { 4 } else { 3 };
    vec![
        harness("copies of all definitions", move |ctx| {
            let defs = all();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let mut v = 50.0;
            let stained = ctx.flag("records everywhere");
            for _ in 0..ctx.choose("saves before", 3) {
                y.save();
                let mut w = v;
                for p in y.parts_mut() {
                    p.poke(&mut w);
                }
                v = w;
            }
            if stained {
                for p in y.parts_mut() {
                    p.stain(3.0);
                }
            }
            let m = read(&*y);
            let before = y.bytes();
            ctx.step();
            let mut b = y.bare();
            let name = y.name();
            ensure!(y.bytes() == before, "{name}: copying changed the original");
            let want = bare_model(&m, y.marks());
            let got = read(&*b);
            ensure!(got == want, "{name}: bare copy: {}", diff(&got, &want));
            ctx.state(hash(&*b));
            let bb = b.bytes();
            // changing either leaves the other alone
            let mut cur = (y, b);
            let (mut yb, mut bb) = (before, bb);
            for _ in 0..depth {
                ctx.step();
                if ctx.flag("on the copy") {
                    touch(ctx, &mut *cur.1, &mut v)?;
                    bb = cur.1.bytes();
                    ensure!(cur.0.bytes() == yb, "{name}: changing the copy changed the original");
                } else {
                    touch(ctx, &mut *cur.0, &mut v)?;
                    yb = cur.0.bytes();
                    ensure!(cur.1.bytes() == bb, "{name}: changing the original changed the copy");
                }
                ctx.state(hash(&*cur.0));
                ctx.state(hash(&*cur.1));
            }
            b = cur.1;
            drop(b);
            Ok(())
        }),
        harness("long histories, schedules and logs", move |ctx| {
            let defs = all();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            let n = *ctx.pick("records", if th { &[33usize, 150, 300, 1100, 10_000][..] } else { &[33usize, 300, 1100][..] });
            let v0 = *ctx.pick("values", &[1.0, -700.0, 1e12, 1e-9]);
            fill(&mut *y, v0);
            for _ in 0..n {
                y.save();
            }
            if ctx.flag("records everywhere") {
                for p in y.parts_mut() {
                    p.stain(3.0);
                }
            }
            if let Some(s) = y.sys_mut() {
                s.set_report((0..n).map(|k| v0 + k as f64).collect());
                s.set_own(n, v0 * 3.0);
                s.set_solver(solver(ctx.choose("solver", 7)));
                if let Some(c) = s.conf_mut() {
                    for k in 0..n {
                        c.history.push(SolverState { dt: k as f64, states: vec![v0; k % 3], ..Default::default() });
                    }
                }
            }
            let m = read(&*y);
            let before = y.bytes();
            ctx.step();
            let b = y.bare();
            let name = y.name();
            ensure!(y.bytes() == before, "{name}: copying changed the original");
            let want = bare_model(&m, y.marks());
            let got = read(&*b);
            ensure!(got == want, "{name}: bare copy of {n} records: {}", diff(&got, &want).chars().take(2000).collect::<String>());
            // a copy of the copy, and of a copy that went on
            let mut c = b.bare();
            ensure!(c.bytes() == b.bytes(), "{name}: the bare copy of a bare copy differs from it");
            for _ in 0..n {
                c.save();
            }
            ensure!(c.bare().bytes() == b.bytes(), "{name}: a bare copy depends on the records made since");
            ctx.state(hash(&*b));
            Ok(())
        }),
        harness("copies continue like the original", move |ctx| {
            let defs = gen::systems();
            let k = ctx.choose("definition", defs.len());
            let mut y = defs[k]();
            ctx.note(|| format!("definition {} {:?}", y.name(), y.marks()));
            fill(&mut *y, 1.0);
            let s = ctx.choose("solver", 7);
            y.sys_mut().unwrap().set_solver(solver(s));
            let stage = ctx.choose("reports before", 4);
            for _ in 0..stage {
                let q = y.sys_mut().unwrap();
                let (i, _) = q.own();
                q.solve_step();
                let (_, t) = q.own();
                q.set_own(i + 1, t);
                y.save();
            }
            if ctx.flag("between records") {
                let q = y.sys_mut().unwrap();
                q.solve_step();
            }
            let at = read(&*y);
            ctx.step();
            let mut b = y.bare();
            let got = read(&*b);
            let want = bare_model(&at, y.marks());
            let name = y.name();
            ensure!(got == want, "{name}: bare copy: {}", diff(&got, &want));
            if ctx.flag("copy first") {
                b.sys_mut().unwrap().walk();
                ensure!(read(&*y) == at, "{name}: walking the copy changed the original");
                y.sys_mut().unwrap().walk();
            } else {
                y.sys_mut().unwrap().walk();
                ensure!(read(&*b) == want, "{name}: walking the original changed the copy");
                b.sys_mut().unwrap().walk();
            }
            if let Err(e) = tail_ok(&read(&*y), &read(&*b), &at, y.marks()) {
                fail!("{name}: the copy continues differently: {e}");
            }
            ctx.state(hash(&*y));
            Ok(())
        }),
        harness("example systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let stage = ctx.choose("reports before", 6);
            let rep: Vec<f64> = (0..6).map(|k| 0.11 * k as f64).collect();
            macro_rules! go {
                ($t:ident, $m1h:expr) => {{
                    let mut y = $t { solver_type: solver(s), t_report: rep, ..Default::default() };
                    for _ in 0..stage {
                        let k = y.state.i;
                        y.solve_step();
                        y.state.i = k + 1;
                        y.save_state();
                    }
                    let c = y.clone();
                    ctx.step();
                    let mut b = y.bare_clone();
                    ensure!(y == c, "copying changed the original");
                    ensure!(b.history.is_empty() && b.m1.history.is_empty() && b.m2.history.is_empty() && b.m3.history.is_empty() && b.h12.history.is_empty() && b.h23.history.is_empty(), "a bare copy has a history");
                    let mut e = y.clone();
                    e.history.clear();
                    e.m1.history.clear();
                    e.m2.history.clear();
                    e.m3.history.clear();
                    e.h12.history.clear();
                    e.h23.history.clear();
                    ensure!(b == e, "a bare copy differs from the original in more than its histories");
                    if stage == 6 {
                        return Ok(());
                    }
                    b.walk();
                    ensure!(y == c, "walking the copy changed the original");
                    y.walk();
                    ensure!((&b.m1.state, &b.m2.state, &b.m3.state, &b.h12.state, &b.h23.state, &b.state, &b.solver_type) == (&y.m1.state, &y.m2.state, &y.m3.state, &y.h12.state, &y.h23.state, &y.state, &y.solver_type), "the copy ends elsewhere");
                    ensure!(b.m2.history.temp[..] == y.m2.history.temp[stage..] && b.history.time[..] == y.history.time[stage..] && b.h23.history.q[..] == y.h23.history.q[stage..] && b.m1.history.temp[..] == y.m1.history.temp[stage..], "the copy records other values than the original");
                    ctx.state(H::new().b(&y.to_bincode()).done());
                    // components on their own
                    let m = y.m2.bare_clone();
                    ensure!(m.history.is_empty() && m.c == y.m2.c && m.state == y.m2.state, "bare copy of a component");
                    let m = y.h12.bare_clone();
                    ensure!(m.history.is_empty() && m.h == y.h12.h && m.state == y.h12.state, "bare copy of a component");
                    let m = y.m1.bare_clone();
                    ensure!(m.history.is_empty() && m.state == y.m1.state, "bare copy of a component");
                    Ok(())
                }};
            }
            if ctx.flag("with boundary") {
                go!(System3TMWithBC, 0)
            } else {
                go!(System3TM, 0)
            }
        }),
    ]
}

// ---------------------------------------------------------------- C15
fn c15(th: bool) -> Vec<Harness> {
    use nets::Net;
    fn mass(c: f64, t: f64) -> ThermalMass {
        ThermalMass { c, state: ThermalMassState { temp: t, dtemp: 0.0 }, history: Default::default() }
    }
    fn cond(h: f64) -> Conductance {
        Conductance { h, state: ConductanceState { q: f64::NAN }, history: Default::default() }
    }
    let temps: &'static [[f64; 4]] = {
        let a: &[f64] = if th { &[-7.0, 0.0, 20.0, 313.15] } else { &[-7.0, 20.0, 313.15] };
        let mut v = vec![];
        for x in a {
            for y in a {
                for z in a {
                    for w in a {
                        v.push([*x, *y, *z, *w]);
                    }
                }
            }
        }
        Vec::leak(v)
    };
    let vals = temps.len();
    vec![
        harness("all connection lists", move |ctx| {
            let k = ctx.choose("network", gen_nets::NETS.len());
            let (f, list) = gen_nets::NETS[k];
            let t = temps[ctx.choose("temperatures", vals)];
            let hv: [f64; 14] = match ctx.choose("conductances", if th { 3 } else { 2 }) {
                0 => [1.0, 2.5, 0.3, 4.0, 0.7, 11.0, 0.9, 1.7, 5.0, 0.01, 2.0, 3.1, 6.0, 0.2],
                1 => std::array::from_fn(|k| if k % 2 == 0 { 0.0 } else { 5.0 / k as f64 }),
                _ => [3.0; 14],
            };
            let c = *ctx.pick("storages", &[[1.0, 2.0, 3.5], [0.25, 40.0, 1.0]]);
            let mut n = Net { a: mass(c[0], t[0]), b: mass(c[1], t[1]), c: mass(c[2], t[2]), r: ThermalReservoir { state: ThermalMassState { temp: t[3], dtemp: 0.0 }, history: Default::default() }, q0: cond(hv[0]), q1: cond(hv[1]), q2: cond(hv[2]), q3: cond(hv[3]), q4: cond(hv[4]), q5: cond(hv[5]), q6: cond(hv[6]), q7: cond(hv[7]), q8: cond(hv[8]), q9: cond(hv[9]), q10: cond(hv[10]), q11: cond(hv[11]), q12: cond(hv[12]), q13: cond(hv[13]) };
            // the solver calls this more than once per step: rates start from zero, flows from what was there
            let rounds = 2;
            for round in 0..rounds {
                n.a.set_deriv(0.0);
                n.b.set_deriv(0.0);
                n.c.set_deriv(0.0);
                n.r.set_deriv(0.0);
                ctx.step();
                f(&mut n);
                let t = [n.a.state.temp, n.b.state.temp, n.c.state.temp, n.r.state.temp];
                let q = [&n.q0, &n.q1, &n.q2, &n.q3, &n.q4, &n.q5, &n.q6, &n.q7, &n.q8, &n.q9, &n.q10, &n.q11, &n.q12, &n.q13];
                let mut net = [0.0; 4];
                let mut scale = 1e-300f64;
                for (j, (x, y)) in list.iter().enumerate() {
                    let w = hv[j] * (t[*x] - t[*y]);
                    ensure!((q[j].flow() - w).abs() <= 1e-13 * hv[j] * (t[*x].abs() + t[*y].abs()), "network {list:?}: flow {j} is {}, expected {w} at temperatures {t:?}", q[j].flow());
                    net[*x] -= w;
                    net[*y] += w;
                    scale = scale.max(hv[j] * (t[*x].abs() + t[*y].abs()));
                }
                for j in list.len()..14 {
                    ensure!(q[j].flow().is_nan() || round > 0, "a connection that is not listed was evaluated");
                }
                let d = [n.a.deriv(), n.b.deriv(), n.c.deriv()];
                let mut tot = 0.0;
                for j in 0..3 {
                    let w = net[j] / c[j];
                    ensure!((d[j] - w).abs() <= 1e-13 * (scale / c[j] + w.abs()), "network {list:?}: component {j} changes at {}, expected {w} at temperatures {t:?}", d[j]);
                    tot += d[j] * c[j];
                }
                ensure!(n.r.deriv() == 0.0 && n.r.state() == t[3], "network {list:?}: the reservoir takes a rate of change {}", n.r.deriv());
                ensure!((tot + net[3]).abs() <= 1e-12 * scale * list.len() as f64 + 1e-300, "network {list:?}: net flow into the masses is {tot}, out of the reservoir {}", -net[3]);
                ensure!([n.a.c, n.b.c, n.c.c] == c && [n.q0.h, n.q1.h, n.q2.h, n.q3.h, n.q4.h, n.q5.h, n.q6.h, n.q7.h, n.q8.h, n.q9.h, n.q10.h, n.q11.h, n.q12.h, n.q13.h] == hv, "a parameter changed");
                ensure!([n.a.state.temp, n.b.state.temp, n.c.state.temp] == [t[0], t[1], t[2]], "a temperature changed");
                ctx.state(H::new().u(k as u64).fs(&d).done());
                // second round from other temperatures
                n.a.set_state(t[0] + 3.0);
                n.b.set_state(t[1] * 0.5 - 1.0);
            }
            Ok(())
        }),
        harness("other kinds of components and connections", move |ctx| {
            let k = ctx.choose("network", nets::NETS2.len());
            let (f, list) = nets::NETS2[k];
            let t = temps[ctx.choose("potentials", vals)];
            let st = *ctx.pick("storages", &[[1.0, 2.0, 3.5], [0.25, 40.0, 1.0]]);
            let pre = *ctx.pick("earlier contribution", &[0.0, 1.5]);
            let h = [0.5, 2.0, 3.0, 0.25, 1.5];
            let mut n = nets::Net2::default();
            n.a.state.x = t[0];
            n.b.state.x = t[1];
            n.c = mass(st[2], t[2]);
            n.r.state.temp = t[3];
            n.a.cap = st[0];
            n.b.cap = st[1];
            (n.v.h, n.w.h, n.x.h, n.y.h, n.z.h) = (h[0], h[1], h[2], h[3], h[4]);
            // contributions of the system's own that the connections add to
            n.a.step_deriv(pre);
            n.b.step_deriv(pre);
            n.c.step_deriv(pre);
            let was = [n.a.deriv(), n.b.deriv(), n.c.deriv()];
            let (p, store) = ([n.a.state(), n.b.state(), n.c.state(), n.r.state()], [n.a.storage(), n.b.storage(), n.c.storage(), n.r.storage()]);
            ctx.step();
            f(&mut n);
            let q = [n.v.flow(), n.w.flow(), n.x.flow(), n.y.flow(), n.z.flow()];
            let mut d = was;
            for (x, y, c) in list {
                let w = match c {
                    0 | 4 => h[*c] * (p[*x] * p[*x] - p[*y] * p[*y]),
                    1 | 3 => 2.0 * (h[*c] * (p[*x] - p[*y])).max(0.0),
                    _ => h[*c] * (p[*x] - p[*y]),
                };
                ensure!(close(q[*c], w), "network {list:?}: flow {c} is {}, expected {w}", q[*c]);
                for (e, s) in [(*x, -1.0), (*y, 1.0)] {
                    // the second component takes contributions three times
                    if e < 3 {
                        d[e] += s * w / store[e] * if e == 1 { 3.0 } else { 1.0 };
                    }
                }
            }
            let got = [n.a.deriv(), n.b.deriv(), n.c.deriv()];
            let scale = p.iter().fold(1.0f64, |m, x| m.max(x * x));
            ensure!((0..3).all(|k| (got[k] - d[k]).abs() <= 1e-11 * scale * (1.0 + 1.0 / store[k])), "network {list:?}: rates {got:?}, expected {d:?} at potentials {p:?}");
            ensure!(n.r.deriv() == 0.0 && n.r.state() == t[3], "the reservoir takes a rate of change");
            ctx.state(H::new().u(k as u64).fs(&got).done());
            Ok(())
        }),
        harness("other magnitudes", move |ctx| {
            // flows over conductances, storages and temperature differences of any size
            let nets = gen_nets::NETS.len();
            let picks: Vec<usize> = if th { (0..nets).collect() } else { (0..nets).step_by((nets / 40).max(1)).collect() };
            let k = *ctx.pick("network", &picks);
            let (f, list) = gen_nets::NETS[k];
            const D: [f64; 7] = [1e-12, 1e-6, 1.0, 1e6, 1e12, 1e-40, 1e40];
            let (amp, cap, con) = (*ctx.pick("unit of temperature", &D[..5]), *ctx.pick("unit of storage", &D), *ctx.pick("unit of conductance", &D));
            let t = ctx.pick("temperatures", &[[-7.0, 20.0, 313.0, 4.0], [1.0, -1.0, 1.0, 0.0], [0.0, 0.0, 0.5, 0.5], [-3.0, -3.001, -80.0, -2.0]]).map(|t| t * amp);
            let c = ctx.pick("storages", &[[1.0, 2.0, 3.5], [1.0, 1.0, 1.0]]).map(|c| c * cap);
            let same = ctx.flag("equal conductances");
            let hv: [f64; 14] = std::array::from_fn(|k| con * if same { 1.0 } else { 0.3 + 0.7 * k as f64 });
            let before = *ctx.pick("earlier rates", &[0.0, 0.5, -1e3]) * amp * con / cap;
            let mut n = Net { a: mass(c[0], t[0]), b: mass(c[1], t[1]), c: mass(c[2], t[2]), r: ThermalReservoir { state: ThermalMassState { temp: t[3], dtemp: 0.0 }, history: Default::default() }, q0: cond(hv[0]), q1: cond(hv[1]), q2: cond(hv[2]), q3: cond(hv[3]), q4: cond(hv[4]), q5: cond(hv[5]), q6: cond(hv[6]), q7: cond(hv[7]), q8: cond(hv[8]), q9: cond(hv[9]), q10: cond(hv[10]), q11: cond(hv[11]), q12: cond(hv[12]), q13: cond(hv[13]) };
            n.a.set_deriv(before);
            n.b.set_deriv(before);
            n.c.set_deriv(before);
            ctx.step();
            f(&mut n);
            let q = [&n.q0, &n.q1, &n.q2, &n.q3, &n.q4, &n.q5, &n.q6, &n.q7, &n.q8, &n.q9, &n.q10, &n.q11, &n.q12, &n.q13];
            let mut d = [before; 4];
            let mut scale = before.abs();
            for (j, (x, y)) in list.iter().enumerate() {
                let w = hv[j] * (t[*x] - t[*y]);
                ensure!((q[j].flow() - w).abs() <= 1e-14 * hv[j] * (t[*x].abs() + t[*y].abs()), "network {list:?}: flow {j} is {:e}, expected {w:e} at temperatures {t:?}", q[j].flow());
                for (e, s) in [(*x, -1.0), (*y, 1.0)] {
                    if e < 3 {
                        d[e] += s * w / c[e];
                    }
                }
                scale += w.abs() / cap;
            }
            let got = [n.a.deriv(), n.b.deriv(), n.c.deriv()];
            ensure!((0..3).all(|k| (got[k] - d[k]).abs() <= 1e-13 * scale), "network {list:?}: rates {got:?}, expected {:?} at temperatures {t:?}, storages {c:?}, conductances {hv:?}", &d[..3]);
            ensure!(n.r.deriv() == 0.0 && n.r.state() == t[3] && [n.a.state.temp, n.b.state.temp, n.c.state.temp] == [t[0], t[1], t[2]], "a temperature changed, or the reservoir took a rate");
            ctx.state(H::new().u(k as u64).fs(&got).done());
            Ok(())
        }),
        harness("one connection", move |ctx| {
            const V: [f64; 16] = [0.0, -0.0, 1.0, -1.0, -40.0, 20.0, 20.001, 1e-12, -1e-9, 1e9, -1e9, 273.15, -1e-3, 0.5, 1e150, -1e-150];
            let (a, b) = (*ctx.pick("first", &V), *ctx.pick("second", &V));
            let h = *ctx.pick("conductance", &[0.0, 1.0, 2.5, 1e-9, 1e-6, 1e6, 1e9, 20.0, 1e-40, 1e40]);
            let mut c = cond(h);
            c.state.q = *ctx.pick("earlier flow", &[0.0, f64::NAN, 7.0, -1e9]);
            let (m, r) = (mass(2.0, a), mass(7.0, b));
            ctx.step();
            match ctx.choose("kinds", 3) {
                0 => c.set_flow(&m, &r),
                1 => c.set_flow(&m, &ThermalReservoir { state: ThermalMassState { temp: b, dtemp: 9.0 }, history: Default::default() }),
                _ => c.set_flow(&ThermalReservoir { state: ThermalMassState { temp: a, dtemp: 9.0 }, history: Default::default() }, &r),
            }
            ensure!((c.flow() - h * (a - b)).abs() <= 1e-13 * h * (a.abs() + b.abs()) && c.state.q == c.flow(), "flow from {a} to {b} through {h} is {}", c.flow());
            ctx.state(H::new().f(c.flow()).done());
            Ok(())
        }),
    ]
}

fn harnesses(id: &str, th: bool) -> Vec<Harness> {
    match id {
        "C12" => c12(th),
        "C13" => c13(th),
        "C14" => c14(th),
        "C15" => c15(th),
        _ => {
            eprintln!("no harness for {id}");
            std::process::exit(3)
        }
    }
}
fn main() {
    eng::main(harnesses)
}
