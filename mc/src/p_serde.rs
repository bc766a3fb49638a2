//! C09 serialization round trips, C10 files: complete or reported, torn refused.
use crate::engine::*;
use crate::p_walk::smooth;
use crate::systems::*;
use crate::{ensure, fail};
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use serde_json::Value;

/// numbers used as field values: plain ones, format-sensitive ones, extremes, and ones computed by walks
pub const NUMS: [f64; 44] = [
    0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.30000000000000004, 1.0 / 3.0, 2.0 / 3.0, 1e-5, 1e-9, 1e15, 1e16, 1e17, 1e20, 1e21, 1e22, 1e23, 9007199254740991.0, 9007199254740992.0, 9007199254740994.0, 123456789.12345679, -40.0, 273.15, 86400.0,
    0.49124999999999996, 1.1659149564163773, 1.9624975798221567, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 2.225073858507201e-308, 5e-324, 1e-300, 1e300, 0.9999999999999999, 1.0000000000000002, 6.02214076e23, 1e100, 4.9406564584124654e-300,
    100.0, 0.001, 1234.5, 255.0,
];

/// what the JSON number codec makes of a number
fn codec(f: f64) -> f64 {
    serde_json::from_str(&serde_json::to_string(&f).unwrap()).unwrap_or(f64::NAN)
}
fn map_floats(v: &Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => serde_json::json!(codec(n.as_f64().unwrap())),
        Value::Array(a) => Value::Array(a.iter().map(map_floats).collect()),
        Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), map_floats(v))).collect()),
        x => x.clone(),
    }
}
/// every format, compared bit for bit (JSON: up to the codec's own rounding, which is judged separately)
fn round<T: SerdeAPI + PartialEq + std::fmt::Debug>(ctx: &mut Ctx, x: &T, what: &str) -> R {
    let bits = x.to_bincode();
    let one = |e: anyhow::Error| e.to_string().lines().next().unwrap_or("").to_string();
    ctx.step();
    match T::from_bincode(&bits) {
        Ok(y) => ensure!(y == *x && y.to_bincode() == bits, "{what}: comes back from binary as {y:?}, was {x:?}"),
        Err(e) => fail!("{what}: binary form does not load: {}", one(e)),
    }
    ctx.step();
    let yaml = x.to_yaml();
    match T::from_yaml(&yaml) {
        Ok(y) => ensure!(y == *x && y.to_bincode() == bits, "{what}: comes back from YAML as {y:?}, was {x:?}"),
        Err(e) => fail!("{what}: YAML form does not load: {}", one(e)),
    }
    ctx.step();
    let json = x.to_json();
    match T::from_json(&json) {
        Ok(y) => {
            let (a, b) = (serde_json::to_value(x).unwrap(), serde_json::to_value(&y).unwrap());
            let want = map_floats(&a);
            ensure!(b == want, "{what}: comes back from JSON as {b}, was {a}");
        }
        Err(e) => fail!("{what}: JSON form does not load: {}", one(e)),
    }
    ctx.state(H::new().b(&bits).done());
    Ok(())
}

fn hist_node(n: usize, a: f64) -> NodeStateHistoryVec {
    let mut h = NodeStateHistoryVec::new();
    for k in 0..n {
        h.push(NodeState { x: a + k as f64, dx: -a * 0.5 });
    }
    h
}
fn tm(c: f64, t: f64, n: usize) -> ThermalMass {
    let mut m = ThermalMass { c, state: ThermalMassState { temp: t, dtemp: t * 0.1 }, history: Default::default() };
    for k in 0..n {
        m.state.temp += k as f64;
        m.save_state();
    }
    m
}
fn cond(h: f64, q: f64, n: usize) -> Conductance {
    let mut m = Conductance { h, state: ConductanceState { q }, history: Default::default() };
    for k in 0..n {
        m.state.q += k as f64;
        m.save_state();
    }
    m
}
fn any_solver(ctx: &mut Ctx, nums: &[f64]) -> SolverTypes {
    let k = ctx.choose("variant", 7);
    let a = *ctx.pick("number", nums);
    if k < 5 {
        return fixed(k, a);
    }
    adaptive(k, any_conf(ctx, a))
}
fn opt(ctx: &mut Ctx, l: &str, a: f64) -> Option<f64> {
    if ctx.flag(l) {
        Some(a)
    } else {
        None
    }
}
fn any_state(ctx: &mut Ctx, a: f64) -> SolverState {
    SolverState { dt: a, n_iter: *ctx.pick("n_iter", &[0u8, 3, 255]), norm_err: opt(ctx, "norm_err", a * 0.5), norm_err_rel: opt(ctx, "norm_err_rel", 0.25), t_curr: 7.5, states: ctx.pick("states", &[vec![], vec![1.0], vec![a, -2.0, 0.1]]).clone() }
}
fn any_conf(ctx: &mut Ctx, a: f64) -> AdaptiveSolverConfig {
    let mut c = aconf(0.3, 11.0, 7, 1e-4, 1e-8, false, false);
    match ctx.choose("number in", 5) {
        0 => c.dt_max = a,
        1 => c.atol = a,
        2 => c.rtol = a,
        3 => c.state.dt = a,
        _ => c.state.t_curr = a,
    }
    c.save = ctx.flag("save");
    c.save_states = ctx.flag("save_states");
    c.max_iter = *ctx.pick("max_iter", &[5u8, 0, 255]);
    let n = ctx.choose("log entries", 3);
    for k in 0..n {
        c.history.push(SolverState { dt: a, n_iter: k as u8, norm_err: if k == 0 { None } else { Some(a) }, norm_err_rel: Some(2.5), t_curr: k as f64, states: vec![a; k] });
    }
    c
}

pub fn c09(th: bool) -> Vec<Harness> {
    let few: &'static [f64] = &[0.1, 0.0, -2.5, 1e-9, 1e22, 3.0];
    vec![
        harness("JSON numbers", move |ctx| {
            // the number codec itself: bit for bit on the whole alphabet
            let a = *ctx.pick("number", &NUMS);
            let b = if ctx.flag("as a bare field") { ThermalMassState { temp: a, dtemp: 1.0 } } else { ThermalMassState { temp: 1.0, dtemp: a } };
            ctx.step();
            match ThermalMassState::from_json(&b.to_json()) {
                Ok(y) => {
                    if y.temp.to_bits() != b.temp.to_bits() || y.dtemp.to_bits() != b.dtemp.to_bits() {
                        let got = if y.temp != b.temp { y.temp } else { y.dtemp };
                        return Err(Fail { key: format!("json-number {a:?} becomes {got:?}"), msg: format!("the number {a:?} comes back from JSON as {got:?}") });
                    }
                    ctx.state(H::new().f(y.temp).f(y.dtemp).done());
                    Ok(())
                }
                Err(e) => fail!("{a:?} does not load from JSON: {e}"),
            }
        }),
        harness("states and components", move |ctx| {
            let a = *ctx.pick("number", &NUMS);
            let n = ctx.choose("records", 3);
            match ctx.choose("type", 9) {
                0 => round(ctx, &SystemState { i: [0, 1, usize::MAX / 2][n], time: a }, "SystemState"),
                1 => round(ctx, &ThermalMassState { temp: a, dtemp: -3.0 }, "ThermalMassState"),
                2 => round(ctx, &ConductanceState { q: a }, "ConductanceState"),
                3 => round(ctx, &tm(a, 21.0, n), "ThermalMass"),
                4 => round(ctx, &tm(5.0, if a.abs() > 1e300 { 1.0 } else { a }, n), "ThermalMass"),
                5 => round(ctx, &ThermalReservoir { state: ThermalMassState { temp: a, dtemp: 0.0 }, history: tm(1.0, 2.0, n).history }, "ThermalReservoir"),
                6 => round(ctx, &cond(a, 2.0, n), "Conductance"),
                7 => round(ctx, &Node { cap: a, state: NodeState { x: 1.0, dx: a }, history: hist_node(n, 0.5) }, "Node"),
                _ => {
                    let mut h = SystemStateHistoryVec::new();
                    for k in 0..n {
                        h.push(SystemState { i: k, time: a });
                    }
                    round(ctx, &h, "SystemStateHistoryVec")
                }
            }
        }),
        harness("solver state and log", move |ctx| {
            let a = *ctx.pick("number", if th { &NUMS[..] } else { &NUMS[..24] });
            if ctx.flag("history") {
                let mut h = SolverStateHistoryVec::new();
                for k in 0..ctx.choose("entries", 3) {
                    let s = any_state(ctx, a + k as f64);
                    h.push(s);
                }
                round(ctx, &h, "SolverStateHistoryVec")
            } else {
                let s = any_state(ctx, a);
                round(ctx, &s, "SolverState")
            }
        }),
        harness("solvers", move |ctx| {
            let s = any_solver(ctx, if th { &NUMS } else { &NUMS[..24] });
            if let Some(c) = conf_of(&s) {
                let c = c.clone();
                round(ctx, &c, "AdaptiveSolverConfig")?;
            }
            round(ctx, &s, "SolverTypes")?;
            // documented external form: the variant name with its parameters
            let v: Value = serde_json::from_str(&s.to_json()).unwrap();
            let (name, dt) = match &s {
                SolverTypes::EulerFixed { dt } => ("EulerFixed", Some(dt)),
                SolverTypes::HeunsMethod { dt } => ("HeunsMethod", Some(dt)),
                SolverTypes::MidpointMethod { dt } => ("MidpointMethod", Some(dt)),
                SolverTypes::RalstonsMethod { dt } => ("RalstonsMethod", Some(dt)),
                SolverTypes::RK4Fixed { dt } => ("RK4Fixed", Some(dt)),
                SolverTypes::RK23BogackiShampine(_) => ("RK23BogackiShampine", None),
                SolverTypes::RK45CashKarp(_) => ("RK45CashKarp", None),
            };
            let want = match dt {
                Some(dt) => serde_json::json!({name: {"dt": codec(*dt)}}),
                None => {
                    let c = conf_of(&s).unwrap();
                    serde_json::json!({name: map_floats(&serde_json::to_value(c).unwrap())})
                }
            };
            ensure!(v == want, "the external form of the solver is {v}, documented {want}");
            if dt.is_none() {
                let keys: Vec<&String> = want[name].as_object().unwrap().keys().collect();
                let mut expect = vec!["dt_max", "max_iter", "atol", "rtol", "save", "save_states", "state", "history"];
                expect.sort();
                let mut k2: Vec<&str> = keys.iter().map(|s| s.as_str()).collect();
                k2.sort();
                ensure!(k2 == expect, "parameters of {name} in external form: {k2:?}");
            }
            Ok(())
        }),
        harness("written by hand", move |ctx| {
            // texts a user writes: field order and spacing do not matter, unknown variants and missing fields are refused
            let k = ctx.choose("solver", 5);
            let name = ["EulerFixed", "HeunsMethod", "MidpointMethod", "RalstonsMethod", "RK4Fixed"][k];
            let dt = *ctx.pick("dt", &[0.1, 5e-3, 1.0]);
            let form = ctx.choose("form", 6);
            ctx.step();
            let ok = |r: Result<SolverTypes, anyhow::Error>| -> R {
                match r {
                    Ok(s) => {
                        ensure!(s == fixed(k, dt), "{name} with dt {dt} loads as {s:?}");
                        Ok(())
                    }
                    Err(e) => fail!("{name} with dt {dt} does not load: {e}"),
                }
            };
            match form {
                0 => ok(SolverTypes::from_json(&format!("{{ \"{name}\" :\n {{\"dt\": {dt:?} }} }}")))?,
                1 => ok(SolverTypes::from_yaml(&format!("!{name}\ndt: {dt:?}\n")))?,
                2 => ensure!(SolverTypes::from_json(&format!("{{\"{name}x\":{{\"dt\":{dt:?}}}}}")).is_err(), "an unknown solver name is accepted"),
                3 => ensure!(SolverTypes::from_json(&format!("{{\"{name}\":{{}}}}")).is_err(), "a solver without its step size is accepted"),
                4 => ensure!(SolverTypes::from_json(&format!("{{\"{name}\":{{\"dt\":\"x\"}}}}")).is_err(), "a step size that is not a number is accepted"),
                _ => ensure!(SolverTypes::from_json(&format!("{{\"RK45CashKarp\":{{\"dt\":{dt:?}}}}}")).is_err(), "an adaptive solver without settings is accepted"),
            }
            ctx.state(H::new().u(k as u64).f(dt).u(form as u64).done());
            Ok(())
        }),
        harness("systems", move |ctx| {
            let s = any_solver(ctx, few);
            let n = ctx.choose("records", 3);
            let rep = ctx.pick("schedule", &[vec![], vec![0.0], vec![0.1, 1e22, 3e22]]).clone();
            let st = SystemState { i: n, time: 0.25 * n as f64 };
            let mut hist = SystemStateHistoryVec::new();
            for _ in 0..n {
                hist.push(st);
            }
            match ctx.choose("type", 3) {
                0 => round(ctx, &System3TM { solver_type: s, m1: tm(1.0, -0.5, n), m2: tm(2.0, 0.1, n), h12: cond(3.0, 4.0, n), m3: tm(5.0, 6.0, n), h23: cond(7.0, 8.0, n), t_report: rep, state: st, history: hist }, "System3TM"),
                1 => round(ctx, &System3TMWithBC { solver_type: s, m1: ThermalReservoir { state: ThermalMassState { temp: 9.0, dtemp: 0.0 }, history: tm(1.0, 2.0, n).history }, m2: tm(2.0, 0.1, n), h12: cond(3.0, 4.0, n), m3: tm(5.0, 6.0, n), h23: cond(7.0, 8.0, n), t_report: rep, state: st, history: hist }, "System3TMWithBC"),
                _ => {
                    let mut y = gen_sys(s, smooth(), 0.25 * n as f64, &[0.1, 0.2, -0.3, 4.0, 1e-5, 6.0], rep);
                    for _ in 0..n {
                        y.save_state();
                        y.state.i += 1;
                    }
                    round(ctx, &y, "GenSys")
                }
            }
        }),
        harness("long values", move |ctx| {
            // histories, logs, schedules and state vectors of many entries
            let n = *ctx.pick("entries", if th { &[5usize, 9, 33, 100, 129, 257, 1000, 1025, 10_000, 70_000, 200_000, 1_100_000][..] } else { &[9usize, 33, 129, 257, 1025, 10_000, 150_000][..] });
            let v = |k: usize| match k % 5 {
                0 => 0.1 * k as f64,
                1 => -1.0 / (k as f64 + 0.5),
                2 => 1e9 + k as f64,
                3 => 0.0,
                _ => 1e-7 * (k as f64).sqrt(),
            };
            let long: Vec<f64> = (0..n).map(v).collect();
            let repeat = ctx.flag("all entries equal");
            let long = if repeat { vec![0.1; n] } else { long };
            let w = |k: usize| long[k % n];
            match ctx.choose("type", 10) {
                0 => round(ctx, &SolverState { states: long.clone(), ..Default::default() }, "SolverState"),
                1 => {
                    let mut h = SolverStateHistoryVec::new();
                    for k in 0..n {
                        h.push(SolverState { dt: w(k), n_iter: (k % 256) as u8, norm_err: if k % 3 == 0 { None } else { Some(w(k + 1)) }, norm_err_rel: if k % 4 == 1 { None } else { Some(w(k + 2)) }, t_curr: w(k + 3), states: long[..k % 4].to_vec() });
                    }
                    let mut c = aconf(0.1, 10.0, 5, 1e-5, 1e-9, true, true);
                    c.history = h.clone();
                    round(ctx, &h, "SolverStateHistoryVec")?;
                    round(ctx, &c, "AdaptiveSolverConfig")?;
                    round(ctx, &System3TM { solver_type: adaptive(5 + n % 2, c), ..Default::default() }, "System3TM with a log")
                }
                2 => {
                    let mut h = SystemStateHistoryVec::new();
                    for k in 0..n {
                        h.push(SystemState { i: k, time: w(k) });
                    }
                    round(ctx, &h, "SystemStateHistoryVec")?;
                    round(ctx, &System3TM { history: h, ..Default::default() }, "System3TM with records")
                }
                3 | 4 => {
                    let mut h = ThermalMassStateHistoryVec::new();
                    for k in 0..n {
                        h.push(ThermalMassState { temp: w(k), dtemp: w(k + 1) });
                    }
                    round(ctx, &h, "ThermalMassStateHistoryVec")?;
                    if ctx.flag("mass") {
                        round(ctx, &ThermalMass { c: 2.0, state: Default::default(), history: h }, "ThermalMass")
                    } else {
                        round(ctx, &ThermalReservoir { state: Default::default(), history: h }, "ThermalReservoir")
                    }
                }
                5 => {
                    let mut h = ConductanceStateHistoryVec::new();
                    for k in 0..n {
                        h.push(ConductanceState { q: w(k) });
                    }
                    round(ctx, &Conductance { h: 2.0, state: Default::default(), history: h }, "Conductance")
                }
                6 => round(ctx, &System3TM { t_report: long.clone(), ..Default::default() }, "System3TM with a long schedule"),
                7 => round(ctx, &System3TMWithBC { t_report: long.clone(), ..Default::default() }, "System3TMWithBC with a long schedule"),
                8 => round(ctx, &Rhs { kind: 1, p: long.clone() }, "a parameter vector"),
                _ => {
                    let mut h = NodeStateHistoryVec::new();
                    for k in 0..n {
                        h.push(NodeState { x: w(k), dx: w(k + 1) });
                    }
                    round(ctx, &Node { cap: 1.0, state: NodeState { x: 1.0, dx: 2.0 }, history: h }, "Node")
                }
            }
        }),
        harness("walked systems", move |ctx| {
            let s = ctx.choose("solver", 7);
            let rep: Vec<f64> = (0..if th { 8 } else { 5 }).map(|k| 0.07 * k as f64).collect();
            let upto = ctx.choose("reports walked", rep.len() + 1);
            let st = if s < FIXED {
                fixed(s, *ctx.pick("dt", &[0.02, 0.33]))
            } else {
                let (sv, ss) = (ctx.flag("save"), ctx.flag("save states"));
                adaptive(s, aconf(0.1, 3.0, 5, *ctx.pick("rtol", &[1e-4, 1e-2]), 1e-7, sv, ss))
            };
            macro_rules! go {
                ($y:expr) => {{
                    let mut y = $y;
                    for _ in 0..upto {
                        let k = y.state.i;
                        y.solve_step();
                        y.state.i = k + 1;
                        y.save_state();
                    }
                    y
                }};
            }
            probe_start(false, 100_000);
            match ctx.choose("system", 4) {
                0 => { let y = go!(System3TM { solver_type: st, t_report: rep, ..Default::default() }); round(ctx, &y, "System3TM") }
                1 => { let y = go!(System3TMWithBC { solver_type: st, t_report: rep, ..Default::default() }); round(ctx, &y, "System3TMWithBC") }
                2 => {
                    let y0 = System3TM { solver_type: st, t_report: rep, m1: ThermalMass { c: 1.0, ..tm(1.0, 5.0, 0) }, m2: tm(2.0, 5.0, 0), m3: tm(3.0, 5.0, 0), ..Default::default() };
                    let y = go!(y0);
                    round(ctx, &y, "System3TM in equilibrium")
                }
                _ => { let y = go!(gen_sys(st, smooth(), 0.0, &crate::p_walk::Y0, rep)); round(ctx, &y, "GenSys") }
            }
        }),
    ]
}

// ---------------------------------------------------------------- C10
fn sample(k: usize) -> System3TM {
    match k {
        0 => System3TM { t_report: vec![0.0, 0.5], ..Default::default() },
        1 => {
            let mut y = System3TM { solver_type: fixed(0, 0.1), t_report: vec![0.0, 0.25, 0.5], ..Default::default() };
            y.walk();
            y
        }
        _ => {
            let mut y = System3TM { solver_type: adaptive(6, aconf(0.1, 3.0, 5, 1e-2, 1e-3, true, true)), t_report: vec![0.0, 0.25], ..Default::default() };
            y.walk();
            y
        }
    }
}
fn with_limit<T>(lim: Option<u64>, f: impl FnOnce() -> T) -> T {
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        let mut old: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut old);
        if let Some(l) = lim {
            let n = libc::rlimit { rlim_cur: l, rlim_max: old.rlim_max };
            assert_eq!(libc::setrlimit(libc::RLIMIT_FSIZE, &n), 0, "engine: cannot set a file size limit");
        }
        let r = f();
        libc::setrlimit(libc::RLIMIT_FSIZE, &old);
        r
    }
}
fn same<T: SerdeAPI>(a: &T, b: &T) -> bool {
    map_floats(&serde_json::to_value(a).unwrap()) == map_floats(&serde_json::to_value(b).unwrap())
}
/// save under a size limit, then look at the result and the file
fn save_case<T: SerdeAPI + PartialEq>(ctx: &mut Ctx, x: &T, ext: &str, lim: Option<u64>, prev: usize) -> R {
    let dir = crate::scratch();
    let p = dir.join(format!("save.{ext}"));
    let _ = std::fs::remove_file(&p);
    let text = if ext == "json" { x.to_json() } else { x.to_yaml() };
    let prev_bytes: Option<Vec<u8>> = match prev {
        0 => None,
        1 => Some(b"{}".to_vec()),
        2 => Some(text.as_bytes().iter().copied().chain(b"\n# leftover leftover leftover leftover\n".iter().copied()).collect()),
        _ => Some(vec![b'x'; 20_000]),
    };
    if let Some(b) = &prev_bytes {
        std::fs::write(&p, b).expect("engine: scratch");
    }
    ctx.step();
    let r = with_limit(lim, || x.to_file(p.to_str().unwrap()).map_err(|e| e.to_string()));
    let bytes = std::fs::read(&p).unwrap_or_default();
    ctx.state(H::new().b(&bytes).u(r.is_ok() as u64).done());
    let loaded = T::from_file(p.to_str().unwrap());
    let _ = std::fs::remove_file(&p);
    match r {
        Ok(()) => match loaded {
            Ok(y) => {
                let complete = if ext == "json" { same(&y, x) } else { y == *x };
                ensure!(complete, "saving reported success{}, but the file holds another value ({} bytes)", lim.map(|l| format!(" with writes failing after {l} bytes")).unwrap_or_default(), bytes.len());
                // on the unchanged format the file is exactly the text form
                ensure!(lim.map_or(true, |l| bytes.len() as u64 <= l), "engine: limit not effective");
            }
            Err(e) => fail!("saving reported success{}, but the file ({} bytes) does not load: {}", lim.map(|l| format!(" with writes failing after {l} bytes")).unwrap_or_default(), bytes.len(), e.to_string().lines().next().unwrap_or("")),
        },
        Err(e) => {
            ensure!(lim.is_some(), "saving failed: {e}");
            // a failed write is allowed only when the limit really was hit
            ensure!(lim.unwrap() < text.len() as u64 + 64, "saving {} bytes failed with room for {}: {e}", text.len(), lim.unwrap());
            if ext == "json" {
                ensure!(loaded.is_err() || prev_bytes.as_deref() == Some(&bytes[..]) , "the torn file left by a failed save loads as a value");
            }
        }
    }
    Ok(())
}

pub fn c10(th: bool) -> Vec<Harness> {
    vec![
        harness("write fails at every byte", move |ctx| {
            let k = ctx.choose("value", 3);
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let prev = ctx.choose("previous content", if th { 4 } else { 3 });
            let x = sample(k);
            let len = if ext == "json" { x.to_json().len() } else { x.to_yaml().len() };
            let l = ctx.choose("bytes that can be written", len + 2);
            save_case(ctx, &x, ext, Some(l as u64), prev)
        })
        .serial(),
        harness("small values, write fails at every byte", move |ctx| {
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let prev = ctx.choose("previous content", 4);
            let t = ctx.choose("value", 5);
            macro_rules! go {
                ($x:expr) => {{
                    let x = $x;
                    let len = if ext == "json" { x.to_json().len() } else { x.to_yaml().len() };
                    let l = ctx.choose("bytes that can be written", len + 2);
                    save_case(ctx, &x, ext, Some(l as u64), prev)
                }};
            }
            match t {
                0 => go!(SystemState { i: 3, time: 0.5 }),
                1 => go!(tm(1.5, 20.0, 2)),
                2 => go!(cond(1.5, 20.0, 0)),
                3 => go!(fixed(1, 0.25)),
                _ => go!(aconf(0.1, 10.0, 5, 1e-5, 1e-9, true, false)),
            }
        })
        .serial(),
        harness("large value", move |ctx| {
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let n = *ctx.pick("records", &[10usize, 300, 3000, 40000]);
            let mut h = SystemStateHistoryVec::new();
            for k in 0..n {
                h.push(SystemState { i: k, time: 0.5 * k as f64 });
            }
            let len = if ext == "json" { h.to_json().len() } else { h.to_yaml().len() };
            // around the sizes of usual buffers and the end
            let cuts: Vec<usize> = [0usize, 1, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, len - 1, len].into_iter().filter(|c| *c <= len).collect();
            let l = *ctx.pick("bytes that can be written", &cuts);
            save_case(ctx, &h, ext, Some(l as u64), 0)
        })
        .serial(),
        harness("successful saves", move |ctx| {
            let k = ctx.choose("value", 3);
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let prev = ctx.choose("previous content", 4);
            save_case(ctx, &sample(k), ext, None, prev)
        })
        .serial(),
        harness("saves over one another", move |ctx| {
            // every sequence of saves of values whose texts are alike (equal length, equal beginnings and ends) to two names
            let mut long = ThermalMassStateHistoryVec::new();
            for k in 0..600 {
                long.push(ThermalMassState { temp: 1.5 + (k % 8) as f64, dtemp: 0.5 });
            }
            let vals: Vec<ThermalMass> = (0..7)
                .map(|k| {
                    let mut m = ThermalMass { c: 1.5, state: ThermalMassState { temp: 2.5, dtemp: 0.5 }, history: Default::default() };
                    match k {
                        0 => {}
                        1 => m.c = 3.5,
                        2 => m.state.dtemp = 0.75,
                        3 => m.state.temp = 2.25,
                        4 => m.history = long.clone(),
                        // one digit in the middle of a long text
                        5 => {
                            m.history = long.clone();
                            m.history.temp[300] = 9.5;
                        }
                        _ => {
                            m.c = 2.5;
                            m.state.temp = 1.5;
                        }
                    }
                    m
                })
                .collect();
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let dir = crate::scratch();
            let files = [dir.join(format!("over.{ext}")), dir.join(format!("over2.{ext}"))];
            files.iter().for_each(|f| {
                let _ = std::fs::remove_file(f);
            });
            let mut held: [Option<usize>; 2] = [None, None];
            let depth = if th { 4 } else { 3 };
            for _ in 0..depth {
                let (v, f) = (ctx.choose("value", vals.len()), ctx.choose("file", 2));
                ctx.step();
                let r = vals[v].to_file(files[f].to_str().unwrap());
                ensure!(r.is_ok(), "saving value {v} failed: {}", r.unwrap_err());
                held[f] = Some(v);
                for (g, h) in files.iter().zip(&held) {
                    let got = ThermalMass::from_file(g.to_str().unwrap());
                    match (got, h) {
                        (Ok(y), Some(h)) => ensure!(y == vals[*h], "{} holds another value than value {h}, last saved there", g.file_name().unwrap().to_string_lossy()),
                        (Err(e), Some(h)) => fail!("value {h} does not load after saving: {e}"),
                        (Ok(_), None) => fail!("a file never saved loads"),
                        (Err(_), None) => {}
                    }
                }
            }
            files.iter().for_each(|f| {
                let _ = std::fs::remove_file(f);
            });
            ctx.state(H::new().u(held[0].map_or(9, |h| h) as u64).u(held[1].map_or(9, |h| h) as u64).b(ext.as_bytes()).done());
            Ok(())
        })
        .serial(),
        harness("device full", move |ctx| {
            let ext = *ctx.pick("format", &["json", "yaml"]);
            let p = crate::scratch().join(format!("full.{ext}"));
            let _ = std::fs::remove_file(&p);
            std::os::unix::fs::symlink("/dev/full", &p).expect("engine: symlink");
            ctx.step();
            let r = sample(0).to_file(p.to_str().unwrap());
            let _ = std::fs::remove_file(&p);
            ensure!(r.is_err(), "saving to a full device reported success");
            ctx.state(H::new().b(ext.as_bytes()).done());
            Ok(())
        })
        .serial(),
        harness("names and places", move |ctx| {
            let good = ctx.flag("supported");
            let d = crate::scratch().join("names.v1");
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(d.join("a dir.yaml")).expect("engine: scratch");
            std::fs::create_dir_all(d.join("sub.json")).expect("engine: scratch");
            std::fs::write(d.join("plain"), b"keep").expect("engine: scratch");
            let x = sample(1);
            if good {
                let n = *ctx.pick("name", &["a.json", "a.yaml", "a.b.json", "a.json.yaml", "a.yaml.json", "x y.json", "ä.yaml", "a dir.yaml/v.json", "sub.json/v.yaml", "..json", "-.yaml"]);
                let p = d.join(n);
                ctx.step();
                let r = x.to_file(p.to_str().unwrap());
                let y = System3TM::from_file(p.to_str().unwrap());
                let _ = std::fs::remove_dir_all(&d);
                ensure!(r.is_ok(), "saving to {n} failed: {}", r.unwrap_err());
                match y {
                    Ok(y) => ensure!(same(&x, &y), "{n} holds another value than saved"),
                    Err(e) => fail!("{n} does not load after saving: {e}"),
                }
                ctx.state(H::new().b(n.as_bytes()).done());
            } else {
                let n = *ctx.pick("name", &["a", "a.txt", "a.yml", "a.JSON", "a.Json", "a.YAML", "a.yamL", "a.jsn", "a.jsonx", "a.json.bak", "a.yaml~", ".json", ".yaml", "a.", "json", "a.json ", "a.bin", "a.toml", "no such dir/a.json", "sub.json", "a dir.yaml", "plain/a.json", ""]);
                let p = if n.is_empty() { std::path::PathBuf::new() } else { d.join(n) };
                // a valid document under an unsupported name: untouched by saving, refused by loading
                let doc = if ctx.flag("existing yaml document") { x.to_yaml() } else { x.to_json() };
                let exists = !n.is_empty() && !p.is_dir() && p.parent().map_or(false, |q| q.is_dir());
                if exists {
                    std::fs::write(&p, &doc).expect("engine: scratch");
                }
                let has_file = exists;
                ctx.step();
                let r = x.to_file(p.to_str().unwrap());
                let l = System3TM::from_file(p.to_str().unwrap());
                let after = std::fs::read(&p).ok();
                let left: Vec<String> = std::fs::read_dir(&d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect();
                let _ = std::fs::remove_dir_all(&d);
                ensure!(r.is_err(), "saving to {n:?} reported success");
                ensure!(l.is_err(), "{n:?} was loaded");
                if has_file {
                    ensure!(after.as_deref() == Some(doc.as_bytes()), "saving to {n:?} was refused but changed the file");
                }
                ensure!(left.len() == 3 + has_file as usize, "saving to {n:?} left something behind: {left:?}");
                ctx.state(H::new().b(n.as_bytes()).done());
            }
            Ok(())
        })
        .serial(),
        harness("refused saves create nothing", move |ctx| {
            let n = *ctx.pick("name", &["a", "a.txt", "a.yml", ".json", "a.", "a.jsonx"]);
            let d = crate::scratch().join("empty");
            let _ = std::fs::remove_dir_all(&d);
            std::fs::create_dir_all(&d).expect("engine: scratch");
            ctx.step();
            let r = sample(0).to_file(d.join(n).to_str().unwrap());
            let left = std::fs::read_dir(&d).unwrap().count();
            let _ = std::fs::remove_dir_all(&d);
            ensure!(r.is_err() && left == 0, "saving to {n:?}: {}, {left} files created", if r.is_ok() { "success" } else { "refused" });
            ctx.state(H::new().b(n.as_bytes()).done());
            Ok(())
        })
        .serial(),
        harness("JSON text cut at every byte", move |ctx| {
            let t = ctx.choose("value", 6);
            fn cut<T: SerdeAPI>(ctx: &mut Ctx, x: &T) -> R {
                let j = x.to_json();
                let k = ctx.choose("cut", j.len());
                ensure!(j.is_ascii(), "engine: ascii");
                ctx.step();
                ensure!(T::from_json(&j[..k]).is_err(), "JSON cut after {k} of {} bytes loads", j.len());
                ctx.state(H::new().b(j[..k].as_bytes()).done());
                Ok(())
            }
            match t {
                0 => cut(ctx, &sample(0)),
                1 => cut(ctx, &sample(1)),
                2 => cut(ctx, &sample(2)),
                3 => cut(ctx, &tm(1.5, 20.0, 2)),
                4 => cut(ctx, &fixed(1, 0.25)),
                _ => cut(ctx, &sample(2).history),
            }
        }),
        harness("JSON file cut at every byte", move |ctx| {
            let t = ctx.choose("value", 3);
            let x = sample(t);
            let j = x.to_json();
            let k = ctx.choose("cut", j.len());
            let p = crate::scratch().join(format!("cut-{:?}.json", std::thread::current().id()));
            std::fs::write(&p, &j.as_bytes()[..k]).expect("engine: scratch");
            ctx.step();
            let r = System3TM::from_file(p.to_str().unwrap());
            let _ = std::fs::remove_file(&p);
            ensure!(r.is_err(), "JSON file cut after {k} of {} bytes loads", j.len());
            ctx.state(H::new().b(j[..k].as_bytes()).done());
            Ok(())
        }),
        harness("binary image cut at every byte", move |ctx| {
            let t = ctx.choose("value", 6);
            fn cut<T: SerdeAPI>(ctx: &mut Ctx, x: &T) -> R {
                let j = x.to_bincode();
                let k = ctx.choose("cut", j.len());
                ctx.step();
                ensure!(T::from_bincode(&j[..k]).is_err(), "binary image cut after {k} of {} bytes loads", j.len());
                ctx.state(H::new().b(&j[..k]).done());
                Ok(())
            }
            match t {
                0 => cut(ctx, &sample(0)),
                1 => cut(ctx, &sample(1)),
                2 => cut(ctx, &sample(2)),
                3 => cut(ctx, &tm(1.5, 20.0, 2)),
                4 => cut(ctx, &fixed(1, 0.25)),
                _ => cut(ctx, &sample(2).history),
            }
        }),
    ]
}
