//! C21: every scenario is run on the Python module (in a Python process) and with the Rust library; what is seen has to agree.
use dess::prelude::*;
use dess_examples::components::*;
use dess_examples::three_thermal_mass_sys::System3TM;
use dess_examples::three_thrml_mass_w_bc_sys::System3TMWithBC;
use eng::engine::*;
use eng::{ensure, fail, scratch, verif};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- Python side
struct Py {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Py {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn schema() -> Value {
    json!({
        "ThermalMass": ["c", "state", "history"],
        "ThermalReservoir": ["state", "history"],
        "Conductance": ["h", "state", "history"],
        "ThermalMassState": ["temp", "dtemp"],
        "ThermalMassStateHistoryVec": ["temp", "dtemp"],
        "ConductanceState": ["q"],
        "ConductanceStateHistoryVec": ["q"],
        "SystemState": ["i", "time"],
        "SystemStateHistoryVec": ["i", "time"],
        "SolverState": ["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"],
        "SolverStateHistoryVec": ["dt", "n_iter", "norm_err", "norm_err_rel", "t_curr", "states"],
        "AdaptiveSolverConfig": ["dt_max", "max_iter", "atol", "rtol", "save", "save_states", "state", "history"],
        "System3TM": ["solver_type", "solver_conf", "m1", "m2", "h12", "m3", "h23", "t_report", "state", "history"],
        "System3TMWithBC": ["solver_type", "solver_conf", "m1", "m2", "h12", "m3", "h23", "t_report", "state", "history"],
    })
}
fn start() -> Py {
    let mut child = Command::new("/usr/bin/python3.12").arg("-B").arg(verif().join("pyref/driver.py")).env("PYTHONPATH", verif().join("target/pymod/py")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("python3.12");
    let mut to = child.stdin.take().unwrap();
    let from = BufReader::new(child.stdout.take().unwrap());
    let _ = writeln!(to, "{}", schema());
    Py { child, to, from }
}
/// runs the operations in a Python process; Err if that process died
fn python(ops: &[Value]) -> Result<Vec<Value>, Fail> {
    thread_local!(static P: RefCell<Option<Py>> = const { RefCell::new(None) });
    P.with(|p| {
        let mut p = p.borrow_mut();
        let q = p.get_or_insert_with(start);
        let mut s = String::new();
        let ok = writeln!(q.to, "{}", Value::from(ops.to_vec())).and_then(|_| q.to.flush()).and_then(|_| q.from.read_line(&mut s));
        match (ok, serde_json::from_str(&s)) {
            (Ok(n), Ok(Value::Array(v))) if n > 0 => Ok(v),
            _ => {
                *p = None;
                fail!("the Python process died (a crash in the module, or the module cannot be imported)")
            }
        }
    })
}

// ---------------------------------------------------------------- how Python should see a Rust value
fn f(x: f64) -> Value {
    json!({ "f": format!("{:016x}", x.to_bits()) })
}
fn fl(v: &[f64]) -> Value {
    json!({ "l": v.iter().map(|x| f(*x)).collect::<Vec<_>>() })
}
trait See {
    fn see(&self) -> Value;
}
impl See for f64 {
    fn see(&self) -> Value {
        json!(["f", format!("{:016x}", if self.is_nan() { f64::NAN.to_bits() } else { self.to_bits() })])
    }
}
macro_rules! ints { ($($t:ty),*) => { $(impl See for $t { fn see(&self) -> Value { json!(["i", self.to_string()]) } })* } }
ints!(u8, usize);
impl See for bool {
    fn see(&self) -> Value {
        json!(self)
    }
}
impl See for String {
    fn see(&self) -> Value {
        json!(self)
    }
}
impl<T: See> See for Option<T> {
    fn see(&self) -> Value {
        self.as_ref().map(|x| x.see()).unwrap_or(Value::Null)
    }
}
impl<T: See> See for Vec<T> {
    fn see(&self) -> Value {
        let mut v = vec![json!("l")];
        v.extend(self.iter().map(|x| x.see()));
        Value::Array(v)
    }
}
macro_rules! objects {
    ($($t:ident: $($a:ident),*;)*) => { $(impl See for $t {
        fn see(&self) -> Value {
            json!(["o", stringify!($t), { $(stringify!($a): self.$a.see()),* }])
        }
    })* };
}
objects! {
    ThermalMass: c, state, history;
    ThermalReservoir: state, history;
    Conductance: h, state, history;
    ThermalMassState: temp, dtemp;
    ThermalMassStateHistoryVec: temp, dtemp;
    ConductanceState: q;
    ConductanceStateHistoryVec: q;
    SystemState: i, time;
    SystemStateHistoryVec: i, time;
    SolverState: dt, n_iter, norm_err, norm_err_rel, t_curr, states;
    SolverStateHistoryVec: dt, n_iter, norm_err, norm_err_rel, t_curr, states;
    AdaptiveSolverConfig: dt_max, max_iter, atol, rtol, save, save_states, state, history;
}
macro_rules! systems {
    ($($t:ident),*) => { $(impl See for $t {
        fn see(&self) -> Value {
            let conf = match &self.solver_type {
                SolverTypes::RK45CashKarp(c) | SolverTypes::RK23BogackiShampine(c) => Some((**c).clone()),
                _ => None,
            };
            json!(["o", stringify!($t), {
                "solver_type": self.solver_type.to_json(), "solver_conf": conf.see(),
                "m1": self.m1.see(), "m2": self.m2.see(), "h12": self.h12.see(), "m3": self.m3.see(), "h23": self.h23.see(),
                "t_report": self.t_report.see(), "state": self.state.see(), "history": self.history.see()
            }])
        }
    })* };
}
systems!(System3TM, System3TMWithBC);

/// any exposed object
#[derive(Clone, Debug)]
enum Obj {
    ThermalMass(ThermalMass),
    ThermalReservoir(ThermalReservoir),
    Conductance(Conductance),
    ThermalMassState(ThermalMassState),
    ThermalMassStateHistoryVec(ThermalMassStateHistoryVec),
    ConductanceState(ConductanceState),
    ConductanceStateHistoryVec(ConductanceStateHistoryVec),
    SystemState(SystemState),
    SystemStateHistoryVec(SystemStateHistoryVec),
    SolverState(SolverState),
    SolverStateHistoryVec(SolverStateHistoryVec),
    AdaptiveSolverConfig(AdaptiveSolverConfig),
    System3TM(Box<System3TM>),
    System3TMWithBC(Box<System3TMWithBC>),
}
const CLASSES: [&str; 14] = ["ThermalMass", "ThermalReservoir", "Conductance", "ThermalMassState", "ThermalMassStateHistoryVec", "ConductanceState", "ConductanceStateHistoryVec", "SystemState", "SystemStateHistoryVec", "SolverState", "SolverStateHistoryVec", "AdaptiveSolverConfig", "System3TM", "System3TMWithBC"];
macro_rules! each {
    ($o:expr, $x:ident, $e:expr) => {
        match $o {
            Obj::ThermalMass($x) => $e,
            Obj::ThermalReservoir($x) => $e,
            Obj::Conductance($x) => $e,
            Obj::ThermalMassState($x) => $e,
            Obj::ThermalMassStateHistoryVec($x) => $e,
            Obj::ConductanceState($x) => $e,
            Obj::ConductanceStateHistoryVec($x) => $e,
            Obj::SystemState($x) => $e,
            Obj::SystemStateHistoryVec($x) => $e,
            Obj::SolverState($x) => $e,
            Obj::SolverStateHistoryVec($x) => $e,
            Obj::AdaptiveSolverConfig($x) => $e,
            Obj::System3TM($x) => $e,
            Obj::System3TMWithBC($x) => $e,
        }
    };
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Json,
    Yaml,
    Bincode,
}
macro_rules! load_as {
    ($t:ident, $form:expr, $b:expr) => {{
        let s = std::str::from_utf8($b);
        match $form {
            Form::Json => $t::from_json(s.unwrap()),
            Form::Yaml => $t::from_yaml(s.unwrap()),
            Form::Bincode => $t::from_bincode($b),
        }
    }};
}
macro_rules! by_class {
    ($c:expr, $m:ident, $($a:expr),*) => {
        match $c {
            "ThermalMass" => $m!(ThermalMass, $($a),*).map(Obj::ThermalMass),
            "ThermalReservoir" => $m!(ThermalReservoir, $($a),*).map(Obj::ThermalReservoir),
            "Conductance" => $m!(Conductance, $($a),*).map(Obj::Conductance),
            "ThermalMassState" => $m!(ThermalMassState, $($a),*).map(Obj::ThermalMassState),
            "ThermalMassStateHistoryVec" => $m!(ThermalMassStateHistoryVec, $($a),*).map(Obj::ThermalMassStateHistoryVec),
            "ConductanceState" => $m!(ConductanceState, $($a),*).map(Obj::ConductanceState),
            "ConductanceStateHistoryVec" => $m!(ConductanceStateHistoryVec, $($a),*).map(Obj::ConductanceStateHistoryVec),
            "SystemState" => $m!(SystemState, $($a),*).map(Obj::SystemState),
            "SystemStateHistoryVec" => $m!(SystemStateHistoryVec, $($a),*).map(Obj::SystemStateHistoryVec),
            "SolverState" => $m!(SolverState, $($a),*).map(Obj::SolverState),
            "SolverStateHistoryVec" => $m!(SolverStateHistoryVec, $($a),*).map(Obj::SolverStateHistoryVec),
            "AdaptiveSolverConfig" => $m!(AdaptiveSolverConfig, $($a),*).map(Obj::AdaptiveSolverConfig),
            "System3TM" => $m!(System3TM, $($a),*).map(|x| Obj::System3TM(Box::new(x))),
            _ => $m!(System3TMWithBC, $($a),*).map(|x| Obj::System3TMWithBC(Box::new(x))),
        }
    };
}
type Any = Result<Obj, String>;
fn load(class: &str, form: Form, b: &[u8]) -> Any {
    by_class!(class, load_as, form, b).map_err(|e| e.to_string())
}
macro_rules! file_as {
    ($t:ident, $p:expr) => {
        $t::from_file($p)
    };
}
fn load_file(class: &str, p: &str) -> Any {
    by_class!(class, file_as, p).map_err(|e| e.to_string())
}
macro_rules! default_of {
    ($t:ident, $u:expr) => {
        Ok::<_, String>($t::default())
    };
}
fn default_obj(class: &str) -> Obj {
    by_class!(class, default_of, ()).unwrap()
}
impl Obj {
    fn class(&self) -> &'static str {
        match self {
            Obj::ThermalMass(_) => "ThermalMass",
            Obj::ThermalReservoir(_) => "ThermalReservoir",
            Obj::Conductance(_) => "Conductance",
            Obj::ThermalMassState(_) => "ThermalMassState",
            Obj::ThermalMassStateHistoryVec(_) => "ThermalMassStateHistoryVec",
            Obj::ConductanceState(_) => "ConductanceState",
            Obj::ConductanceStateHistoryVec(_) => "ConductanceStateHistoryVec",
            Obj::SystemState(_) => "SystemState",
            Obj::SystemStateHistoryVec(_) => "SystemStateHistoryVec",
            Obj::SolverState(_) => "SolverState",
            Obj::SolverStateHistoryVec(_) => "SolverStateHistoryVec",
            Obj::AdaptiveSolverConfig(_) => "AdaptiveSolverConfig",
            Obj::System3TM(_) => "System3TM",
            Obj::System3TMWithBC(_) => "System3TMWithBC",
        }
    }
    fn see(&self) -> Value {
        each!(self, x, x.see())
    }
    fn json(&self) -> String {
        each!(self, x, x.to_json())
    }
    fn yaml(&self) -> String {
        each!(self, x, x.to_yaml())
    }
    fn bincode(&self) -> Vec<u8> {
        each!(self, x, x.to_bincode())
    }
    fn to_file(&self, p: &str) -> Result<(), String> {
        each!(self, x, x.to_file(p)).map_err(|e| e.to_string())
    }
    fn walk(&mut self) {
        match self {
            Obj::System3TM(y) => y.walk(),
            Obj::System3TMWithBC(y) => y.walk(),
            _ => {}
        }
    }
}
fn get(o: &Obj, a: &str) -> Obj {
    macro_rules! sys {
        ($y:expr, $m1:expr) => {
            match a {
                "m1" => $m1,
                "m2" => Obj::ThermalMass($y.m2.clone()),
                "m3" => Obj::ThermalMass($y.m3.clone()),
                "h12" => Obj::Conductance($y.h12.clone()),
                "h23" => Obj::Conductance($y.h23.clone()),
                "state" => Obj::SystemState($y.state),
                "history" => Obj::SystemStateHistoryVec($y.history.clone()),
                _ => match &$y.solver_type {
                    SolverTypes::RK45CashKarp(c) | SolverTypes::RK23BogackiShampine(c) => Obj::AdaptiveSolverConfig((**c).clone()),
                    _ => unreachable!(),
                },
            }
        };
    }
    match (o, a) {
        (Obj::System3TM(y), _) => sys!(y, Obj::ThermalMass(y.m1.clone())),
        (Obj::System3TMWithBC(y), _) => sys!(y, Obj::ThermalReservoir(y.m1.clone())),
        (Obj::ThermalMass(m), "state") => Obj::ThermalMassState(m.state),
        (Obj::ThermalMass(m), _) => Obj::ThermalMassStateHistoryVec(m.history.clone()),
        (Obj::ThermalReservoir(m), "state") => Obj::ThermalMassState(m.state),
        (Obj::ThermalReservoir(m), _) => Obj::ThermalMassStateHistoryVec(m.history.clone()),
        (Obj::Conductance(m), "state") => Obj::ConductanceState(m.state),
        (Obj::Conductance(m), _) => Obj::ConductanceStateHistoryVec(m.history.clone()),
        (Obj::AdaptiveSolverConfig(c), "state") => Obj::SolverState(c.state.clone()),
        (Obj::AdaptiveSolverConfig(c), _) => Obj::SolverStateHistoryVec(c.history.clone()),
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------- scenarios
/// operations with what each has to show; None: any value (it is only stored)
struct Run {
    ops: Vec<Value>,
    want: Vec<Want>,
    what: Vec<String>,
}
enum Want {
    Done,
    Shows(Value),
    Raises,
}
impl Run {
    fn new() -> Run {
        Run { ops: vec![], want: vec![], what: vec![] }
    }
    fn op(&mut self, what: impl Into<String>, op: Value, want: Want) {
        self.ops.push(op);
        self.want.push(want);
        self.what.push(what.into());
    }
    fn view(&mut self, what: impl Into<String>, slot: usize, o: &Obj) {
        self.op(what, json!({"op": "view", "slot": slot}), Want::Shows(o.see()));
    }
    fn go(self, ctx: &mut Ctx) -> R {
        ctx.note(|| format!("operations:\n{}", self.ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join("\n")));
        let out = python(&self.ops)?;
        for (k, (o, w)) in out.iter().zip(&self.want).enumerate() {
            ctx.step();
            let what = &self.what[k];
            ctx.state(H::new().b(o.to_string().as_bytes()).done());
            let exc = o.get("exc").and_then(|e| e.as_str());
            match (w, exc) {
                (Want::Raises, Some(e)) => ensure!(o["ordinary"] == true, "{what}: raises {e}, which is not an ordinary exception: {}", o["text"]),
                (Want::Raises, None) => fail!("{what}: no exception; it gives {}", o["ok"]),
                (_, Some(e)) => fail!("{what}: raises {e}: {}", o["text"]),
                (Want::Done, None) => {}
                (Want::Shows(v), None) => {
                    if let Some(d) = differ(&o["ok"], v, "") {
                        fail!("{what}: {d}");
                    }
                }
            }
        }
        Ok(())
    }
}
fn plain(v: &Value) -> String {
    match v {
        Value::Array(a) if a.len() == 2 && a[0] == "f" => u64::from_str_radix(a[1].as_str().unwrap_or(""), 16).map(|b| format!("{:?}", f64::from_bits(b))).unwrap_or_default(),
        Value::Array(a) if a.len() == 2 && a[0] == "i" => a[1].as_str().unwrap_or("").to_string(),
        Value::Array(a) if !a.is_empty() && a[0] == "l" => format!("[{}]", a[1..].iter().map(plain).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
fn differ(got: &Value, want: &Value, at: &str) -> Option<String> {
    if got == want {
        return None;
    }
    if let (Value::Array(g), Value::Array(w)) = (got, want) {
        if g.len() == 3 && w.len() == 3 && g[0] == "o" && w[0] == "o" {
            if g[1] != w[1] {
                return Some(format!("{at} is a {}, expected a {}", g[1], w[1]));
            }
            for (k, v) in w[2].as_object().unwrap() {
                if let Some(d) = differ(&g[2][k], v, &format!("{at}.{k}")) {
                    return Some(d);
                }
            }
            return None;
        }
    }
    Some(format!("{at} is {}, in Rust {}", plain(got), plain(want)))
}

fn solver_json(s: usize, dt: f64, c: &AdaptiveSolverConfig) -> SolverTypes {
    match s {
        0 => SolverTypes::EulerFixed { dt },
        1 => SolverTypes::HeunsMethod { dt },
        2 => SolverTypes::MidpointMethod { dt },
        3 => SolverTypes::RalstonsMethod { dt },
        4 => SolverTypes::RK4Fixed { dt },
        5 => SolverTypes::RK23BogackiShampine(Box::new(c.clone())),
        _ => SolverTypes::RK45CashKarp(Box::new(c.clone())),
    }
}
fn mass(c: f64, temp: f64) -> ThermalMass {
    ThermalMass { c, state: ThermalMassState { temp, dtemp: 0.0 }, history: Default::default() }
}
fn reservoir(temp: f64) -> ThermalReservoir {
    ThermalReservoir { state: ThermalMassState { temp, dtemp: 0.0 }, history: Default::default() }
}
fn cond(h: f64) -> Conductance {
    Conductance { h, state: ConductanceState { q: 0.0 }, history: Default::default() }
}
fn conf(dt_init: f64, dt_max: f64, max_iter: u8, rtol: f64, atol: f64, save: bool, save_states: bool) -> AdaptiveSolverConfig {
    AdaptiveSolverConfig { dt_max, max_iter, atol, rtol, save, save_states, state: SolverState { dt: dt_init, ..Default::default() }, history: Default::default() }
}
/// arguments by position, by keyword, or the first ones by position and the others by keyword
fn pass(op: &mut Value, args: &[(&str, Value)], how: usize) {
    let n = match how {
        0 => args.len(),
        1 => 0,
        _ => args.len() / 2,
    };
    op["args"] = args[..n].iter().map(|a| a.1.clone()).collect();
    op["kw"] = Value::Object(args[n..].iter().rev().map(|a| (a.0.to_string(), a.1.clone())).collect());
}
fn new(class: &str, args: &[(&str, Value)], how: usize, to: usize) -> Value {
    let mut o = json!({"op": "new", "class": class, "to": to});
    pass(&mut o, args, how);
    o
}
/// slots 1 to 5 hold the parts; returns the arguments after the solver
fn parts(r: &mut Run, bc: bool, rep: &[f64]) -> Vec<(&'static str, Value)> {
    if bc {
        r.op("ThermalReservoir", new("ThermalReservoir", &[("temp0", f(-3.0))], 0, 1), Want::Done);
    } else {
        r.op("ThermalMass", new("ThermalMass", &[("c", f(1.25)), ("temp0", f(-3.0))], 0, 1), Want::Done);
    }
    r.op("ThermalMass", new("ThermalMass", &[("c", f(2.5)), ("temp0", f(11.0))], 0, 2), Want::Done);
    r.op("Conductance", new("Conductance", &[("h", f(4.0))], 0, 3), Want::Done);
    r.op("ThermalMass", new("ThermalMass", &[("c", f(0.75)), ("temp0", f(29.0))], 0, 4), Want::Done);
    r.op("Conductance", new("Conductance", &[("h", f(7.0))], 0, 5), Want::Done);
    let s = |k: usize| json!({ "slot": k });
    vec![("m1", s(1)), ("m2", s(2)), ("h12", s(3)), ("m3", s(4)), ("h23", s(5)), ("t_report", fl(rep))]
}
fn rust_sys(bc: bool, st: SolverTypes, rep: &[f64]) -> Obj {
    if bc {
        Obj::System3TMWithBC(Box::new(System3TMWithBC { solver_type: st, m1: reservoir(-3.0), m2: mass(2.5, 11.0), h12: cond(4.0), m3: mass(0.75, 29.0), h23: cond(7.0), t_report: rep.to_vec(), state: Default::default(), history: Default::default() }))
    } else {
        Obj::System3TM(Box::new(System3TM { solver_type: st, m1: mass(1.25, -3.0), m2: mass(2.5, 11.0), h12: cond(4.0), m3: mass(0.75, 29.0), h23: cond(7.0), t_report: rep.to_vec(), state: Default::default(), history: Default::default() }))
    }
}
fn conf_args(c: &AdaptiveSolverConfig) -> Vec<(&'static str, Value)> {
    vec![("dt_init", f(c.state.dt)), ("dt_max", f(c.dt_max)), ("max_iter", json!(c.max_iter)), ("rtol", f(c.rtol)), ("atol", f(c.atol)), ("save", json!(c.save)), ("save_states", json!(c.save_states))]
}
fn sys_name(bc: bool) -> &'static str {
    if bc {
        "System3TMWithBC"
    } else {
        "System3TM"
    }
}
/// builds a system in slot `to` by its constructor (via 0) or by the class method of an adaptive solver (via 1)
fn build(r: &mut Run, bc: bool, s: usize, c: &AdaptiveSolverConfig, rep: &[f64], via: usize, how: usize, to: usize) -> Obj {
    let args = parts(r, bc, rep);
    let st = solver_json(s, 0.0625, c);
    let o = rust_sys(bc, st.clone(), rep);
    if via == 0 {
        let mut a = vec![("solver_type", json!(st.to_json()))];
        a.extend(args);
        r.op(format!("{}(...)", sys_name(bc)), new(sys_name(bc), &a, how, to), Want::Done);
    } else {
        r.op("AdaptiveSolverConfig", new("AdaptiveSolverConfig", &conf_args(c), how, 6), Want::Done);
        let mut a = vec![("sol", json!({"slot": 6}))];
        a.extend(args);
        let m = if s == 5 { "new_rk23_bogacki_shampine" } else { "new_rk45_cash_karp" };
        let mut op = json!({"op": "cls", "class": sys_name(bc), "method": m, "to": to});
        pass(&mut op, &a, how);
        r.op(format!("{}.{m}(...)", sys_name(bc)), op, Want::Done);
    }
    o
}
fn path(ext: &str) -> String {
    static N: AtomicU64 = AtomicU64::new(0);
    scratch().join(format!("f{}{ext}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().to_string()
}
/// stores a text form of slot `k` in slot `to`
fn text_of(r: &mut Run, k: usize, form: Form, o: &Obj, to: usize) {
    let (m, w) = match form {
        Form::Json => ("to_json", json!(o.json())),
        Form::Yaml => ("to_yaml", json!(o.yaml())),
        Form::Bincode => ("to_bincode", json!(["b", o.bincode().iter().map(|b| format!("{b:02x}")).collect::<String>()])),
    };
    r.op(m, json!({"op": "call", "slot": k, "method": m}), Want::Shows(w));
    r.op(m, json!({"op": "call", "slot": k, "method": m, "to": to}), Want::Done);
}
fn from_name(form: Form) -> &'static str {
    match form {
        Form::Json => "from_json",
        Form::Yaml => "from_yaml",
        Form::Bincode => "from_bincode",
    }
}
const FORMS: [Form; 3] = [Form::Json, Form::Yaml, Form::Bincode];

fn duplicate(r: &mut Run, how: usize, k: usize, o: &Obj, to: usize) -> Obj {
    let class = o.class();
    match how {
        0 => r.op("copy.copy", json!({"op": "copy", "slot": k, "to": to}), Want::Done),
        1 => r.op("copy.deepcopy", json!({"op": "deepcopy", "slot": k, "to": to}), Want::Done),
        2 => r.op("clone", json!({"op": "call", "slot": k, "method": "clone", "to": to}), Want::Done),
        3..=5 => {
            let form = FORMS[how - 3];
            text_of(r, k, form, o, 99);
            r.op(from_name(form), json!({"op": "cls", "class": class, "method": from_name(form), "args": [{"slot": 99}], "to": to}), Want::Done);
            let b = match form {
                Form::Json => o.json().into_bytes(),
                Form::Yaml => o.yaml().into_bytes(),
                Form::Bincode => o.bincode(),
            };
            // the Rust library's own reading is the reference; that it gives the value back is another property
            return load(class, form, &b).unwrap_or_else(|_| o.clone());
        }
        6 | 7 => {
            let p = path(if how == 6 { ".json" } else { ".yaml" });
            r.op("to_file", json!({"op": "call", "slot": k, "method": "to_file", "args": [p]}), Want::Shows(Value::Null));
            r.op("from_file", json!({"op": "cls", "class": class, "method": "from_file", "args": [p], "to": to}), Want::Done);
            return load(class, if how == 6 { Form::Json } else { Form::Yaml }, if how == 6 { o.json() } else { o.yaml() }.as_bytes()).unwrap_or_else(|_| o.clone());
        }
        _ => r.op("copy.deepcopy of a list", json!({"op": "deepcopy in a list", "slot": k, "to": to}), Want::Done),
    }
    o.clone()
}

fn c21(th: bool) -> Vec<Harness> {
    vec![
        harness("constructors", move |ctx| {
            const V: [f64; 7] = [0.0, -1.5, 2.0, 1e300, -5e-324, f64::INFINITY, 0.1];
            let mut r = Run::new();
            let class = ctx.choose("class", 4);
            let how = ctx.choose("passed by", 3);
            let o = match class {
                0 => {
                    let (c, t) = (*ctx.pick("c", &V), *ctx.pick("temp0", &V));
                    r.op("ThermalMass(...)", new("ThermalMass", &[("c", f(c)), ("temp0", f(t))], how, 0), Want::Done);
                    Obj::ThermalMass(mass(c, t))
                }
                1 => {
                    let t = *ctx.pick("temp0", &V);
                    r.op("ThermalReservoir(...)", new("ThermalReservoir", &[("temp0", f(t))], how, 0), Want::Done);
                    Obj::ThermalReservoir(reservoir(t))
                }
                2 => {
                    let h = *ctx.pick("h", &V);
                    r.op("Conductance(...)", new("Conductance", &[("h", f(h))], how, 0), Want::Done);
                    Obj::Conductance(cond(h))
                }
                _ => {
                    let mut c = conf(*ctx.pick("dt_init", &[0.5, 1e-3]), *ctx.pick("dt_max", &[7.0, 0.25]), *ctx.pick("max_iter", &[9, 0, 255]), *ctx.pick("rtol", &[1e-4, 0.0]), *ctx.pick("atol", &[1e-6, 0.125]), false, false);
                    let mut a = conf_args(&c);
                    let (sv, ss) = (ctx.choose("save", 4), ctx.choose("save_states", 4));
                    c.save = sv == 2;
                    c.save_states = ss == 2;
                    a[5].1 = json!([None, None, Some(true), Some(false)][sv]);
                    a[6].1 = json!([None, None, Some(true), Some(false)][ss]);
                    // 0: not passed at all
                    if ss == 0 {
                        a.remove(6);
                    }
                    if sv == 0 {
                        if how != 1 && ss != 0 {
                            return ctx.skip();
                        }
                        a.remove(5);
                    }
                    r.op("AdaptiveSolverConfig(...)", new("AdaptiveSolverConfig", &a, how, 0), Want::Done);
                    Obj::AdaptiveSolverConfig(c)
                }
            };
            r.view(o.class(), 0, &o);
            if let Obj::AdaptiveSolverConfig(c) = &o {
                r.op("dt_mean", json!({"op": "call", "slot": 0, "method": "dt_mean"}), Want::Shows(c.dt_mean().see()));
            }
            r.go(ctx)
        }),
        harness("whole numbers for reals", move |ctx| {
            let mut r = Run::new();
            let v = *ctx.pick("value", &[0i64, -3, 7, 1 << 53]);
            r.op("ThermalMass(int, int)", json!({"op": "new", "class": "ThermalMass", "args": [v, 4], "to": 0}), Want::Done);
            r.view("ThermalMass", 0, &Obj::ThermalMass(mass(v as f64, 4.0)));
            r.op("Conductance(int)", json!({"op": "new", "class": "Conductance", "args": [v], "to": 1}), Want::Done);
            r.view("Conductance", 1, &Obj::Conductance(cond(v as f64)));
            r.go(ctx)
        }),
        harness("system constructors", move |ctx| {
            let bc = ctx.flag("boundary");
            let s = ctx.choose("solver", 7);
            let via = if s >= 5 { ctx.choose("via", 2) } else { 0 };
            let how = ctx.choose("passed by", 3);
            let rep = ctx.pick("report", &[vec![], vec![1.0], vec![0.0, 0.5, 0.5, 2.0], vec![-1.0, 3.0]]).clone();
            let c = conf(*ctx.pick("dt_init", &[0.5, 1e-3]), 0.75, 9, 1e-4, 1e-7, ctx.flag("save"), ctx.flag("save_states"));
            let mut r = Run::new();
            let o = build(&mut r, bc, s, &c, &rep, via, how, 0);
            r.view(o.class(), 0, &o);
            r.go(ctx)
        }),
        harness("operations on systems", move |ctx| {
            let bc = ctx.flag("boundary");
            let s = ctx.choose("solver", 7);
            let via = if s >= 5 { ctx.choose("via", 2) } else { 0 };
            let rep = ctx.pick("report", &[vec![0.0, 0.3, 1.0], vec![0.5], vec![-1.0, 0.4, 0.4]]).clone();
            let c = conf(0.1, 0.75, 4, 1e-4, 1e-7, s % 2 == 0 || via == 1, via == 1);
            let mut r = Run::new();
            let mut live: Vec<(usize, Obj)> = vec![];
            let o = build(&mut r, bc, s, &c, &rep, via, 0, 10);
            live.push((10, o));
            // parts handed out before anything happens
            r.op("m2", json!({"op": "get", "slot": 10, "attr": "m2", "to": 11}), Want::Done);
            live.push((11, get(&live[0].1, "m2")));
            // arguments keep their own values
            live.push((4, Obj::ThermalMass(mass(0.75, 29.0))));
            // deeper for some of the systems
            let deep = rep.len() == 3 && rep[0] == 0.0 && [(false, 0, 0), (true, 5, 1), (false, 6, 0)].contains(&(bc, s, via));
            let depth = match (th, deep) {
                (false, false) => 2,
                (true, true) if s == 5 => 4,
                _ => 3,
            };
            for n in 0..depth {
                let to = 20 + n;
                let sys: Vec<usize> = (0..live.len()).filter(|k| matches!(live[*k].1, Obj::System3TM(_) | Obj::System3TMWithBC(_))).collect();
                let k = sys[ctx.choose("object", sys.len())];
                let (slot, _) = live[k];
                let op = ctx.choose("operation", 11);
                match op {
                    0 => {
                        r.op("walk", json!({"op": "call", "slot": slot, "method": "walk"}), Want::Shows(Value::Null));
                        live[k].1.walk();
                    }
                    1..=9 => {
                        let o = live[k].1.clone();
                        let d = duplicate(&mut r, op - 1, slot, &o, to);
                        live.push((to, d));
                    }
                    _ => {
                        let a = ["m1", "h23", "history"][n % 3];
                        r.op(a, json!({"op": "get", "slot": slot, "attr": a, "to": to}), Want::Done);
                        let o = get(&live[k].1, a);
                        live.push((to, o));
                    }
                }
                for (slot, o) in &live {
                    r.view(format!("after {} operations, object {slot}", n + 1), *slot, o);
                }
            }
            r.go(ctx)
        }),
        harness("loaded systems", move |ctx| {
            // systems in the middle of a run, put back, or with unusual contents: read in Python, walked, looked at
            let bc = ctx.flag("boundary");
            let s = ctx.choose("solver", 7);
            let form = FORMS[ctx.choose("form", 3)];
            let rep = ctx.pick("report", &[vec![0.5, 1.0], vec![1.0], vec![0.0, 0.25, 0.25, 0.7, 1.5], vec![-0.5, 0.5]]).clone();
            let p = ctx.choose("position", rep.len());
            let t = *ctx.pick("time", if th { &[0.0, 0.25, -1.0, 0.5][..] } else { &[0.0, 0.25] });
            let temp = *ctx.pick("temperature", if th { &[20.0, f64::NAN, -0.0, 1e100, f64::INFINITY][..] } else { &[20.0, f64::NAN, -0.0] });
            let before = ctx.choose("records before", 3);
            let c = conf(0.1, 0.75, 4, 1e-4, 1e-7, s == 5 || before == 1, before == 2);
            if t >= *rep.last().unwrap() || (!temp.is_finite() && (form == Form::Json || s >= 5)) {
                return ctx.skip();
            }
            let mut o = rust_sys(bc, solver_json(s, 0.0625, &c), &rep);
            if before > 0 {
                o.walk();
            }
            macro_rules! put {
                ($y:expr) => {{
                    $y.state.time = t;
                    $y.state.i = p;
                    $y.m2.state.temp = temp;
                    if before == 2 {
                        $y.history.clear();
                    }
                }};
            }
            match &mut o {
                Obj::System3TM(y) => put!(y),
                Obj::System3TMWithBC(y) => put!(y),
                _ => unreachable!(),
            }
            let class = o.class();
            let b = match form {
                Form::Json => o.json().into_bytes(),
                Form::Yaml => o.yaml().into_bytes(),
                Form::Bincode => o.bincode(),
            };
            let Ok(mut o) = load(class, form, &b) else { return ctx.skip() };
            let mut r = Run::new();
            let arg = if form == Form::Bincode { json!({"b": b.iter().map(|x| format!("{x:02x}")).collect::<String>()}) } else { json!(std::str::from_utf8(&b).unwrap()) };
            r.op(from_name(form), json!({"op": "cls", "class": class, "method": from_name(form), "args": [arg], "to": 0}), Want::Done);
            r.view("as read", 0, &o);
            r.op("walk", json!({"op": "call", "slot": 0, "method": "walk"}), Want::Shows(Value::Null));
            o.walk();
            r.view("after walking", 0, &o);
            r.op("walk", json!({"op": "call", "slot": 0, "method": "walk"}), Want::Shows(Value::Null));
            o.walk();
            r.view("after walking again", 0, &o);
            r.go(ctx)
        }),
        harness("long runs", move |ctx| {
            let bc = ctx.flag("boundary");
            let s = *ctx.pick("solver", &[0usize, 6]);
            let all: &[usize] = if th { &[300, 3_000, 30_000, 70_000, 150_000] } else { &[300, 3_000, 30_000, 70_000] };
            let n = *ctx.pick("reports", if s == 0 { all } else { &all[..all.len() - 2] });
            let rep: Vec<f64> = (1..=n).map(|k| k as f64 / 1024.0).collect();
            let c = conf(0.1, 0.75, 4, 1e-4, 1e-7, true, n < 5_000);
            let mut o = rust_sys(bc, solver_json(s, 0.0625, &c), &rep);
            let class = o.class();
            let b = o.bincode();
            let mut r = Run::new();
            r.op("from_bincode", json!({"op": "cls", "class": class, "method": "from_bincode", "args": [{"b": b.iter().map(|x| format!("{x:02x}")).collect::<String>()}], "to": 0}), Want::Done);
            r.op("walk", json!({"op": "call", "slot": 0, "method": "walk"}), Want::Shows(Value::Null));
            o.walk();
            r.view("after walking", 0, &o);
            r.go(ctx)
        }),
        harness("objects of every class", move |ctx| {
            let class = CLASSES[ctx.choose("class", CLASSES.len())];
            // a default object, or one taken out of a walked system
            let from = ctx.choose("from", 5);
            let mut r = Run::new();
            let o = if from == 0 {
                r.op("default", json!({"op": "cls", "class": class, "method": "default", "to": 0}), Want::Done);
                default_obj(class)
            } else {
                let bc = class == "ThermalReservoir" || class == "System3TMWithBC" || from == 2;
                let s = [6, 5, 6, 5][from - 1];
                let c = conf(0.1, 0.75, 4, 1e-4, 1e-7, from != 3, from == 1);
                let rep: &[f64] = if from == 4 { &[1.0] } else { &[0.0, 0.3, 1.0] };
                let mut o = build(&mut r, bc, s, &c, rep, from % 2, 0, 9);
                r.op("walk", json!({"op": "call", "slot": 9, "method": "walk"}), Want::Done);
                o.walk();
                let m1 = if bc { "m3" } else { "m1" };
                let p: &[&str] = match class {
                    "ThermalMass" => &[m1],
                    "ThermalReservoir" => &["m1"],
                    "Conductance" => &["h12"],
                    "ThermalMassState" => &["m1", "state"],
                    "ThermalMassStateHistoryVec" => &["m2", "history"],
                    "ConductanceState" => &["h23", "state"],
                    "ConductanceStateHistoryVec" => &["h12", "history"],
                    "SystemState" => &["state"],
                    "SystemStateHistoryVec" => &["history"],
                    "AdaptiveSolverConfig" => &["solver_conf"],
                    "SolverState" => &["solver_conf", "state"],
                    "SolverStateHistoryVec" => &["solver_conf", "history"],
                    c if c == sys_name(bc) => &[],
                    _ => return ctx.skip(),
                };
                for a in p {
                    r.op(*a, json!({"op": "get", "slot": 9, "attr": a, "to": 9}), Want::Done);
                    o = get(&o, a);
                }
                r.op("copy", json!({"op": "copy", "slot": 9, "to": 0}), Want::Done);
                o
            };
            r.view(class, 0, &o);
            if class.ends_with("HistoryVec") {
                let n = match &o {
                    Obj::ThermalMassStateHistoryVec(h) => h.len(),
                    Obj::ConductanceStateHistoryVec(h) => h.len(),
                    Obj::SystemStateHistoryVec(h) => h.len(),
                    Obj::SolverStateHistoryVec(h) => h.len(),
                    _ => unreachable!(),
                };
                r.op("len", json!({"op": "call", "slot": 0, "method": "len"}), Want::Shows(n.see()));
            }
            if let Obj::AdaptiveSolverConfig(c) = &o {
                r.op("dt_mean", json!({"op": "call", "slot": 0, "method": "dt_mean"}), Want::Shows(c.dt_mean().see()));
            }
            let (a, b) = (ctx.choose("first", 9), ctx.choose("then", 9));
            let x = duplicate(&mut r, a, 0, &o, 1);
            let y = duplicate(&mut r, b, 1, &x, 2);
            r.view("the original", 0, &o);
            r.view("its copy", 1, &x);
            r.view("the copy's copy", 2, &y);
            r.go(ctx)
        }),
        harness("bad arguments", move |ctx| {
            let mut r = Run::new();
            let which = ctx.choose("call", 6);
            let text = |s: &str| json!(s);
            match which {
                0 => {
                    let a = ctx.pick("args", &["[]", "[1.0]", "[1.0,2.0,3.0]", "[\"1\",2.0]", "[1.0,null]", "[[1.0],2.0]", "[1.0,\"x\"]"]).to_string();
                    let v: Value = serde_json::from_str(&a).unwrap();
                    r.op(format!("ThermalMass{a}"), json!({"op": "new", "class": "ThermalMass", "args": v}), Want::Raises);
                }
                1 => {
                    let kw = ctx.pick("args", &["{\"h\":1.0,\"x\":2.0}", "{\"g\":1.0}", "{}", "{\"h\":\"a\"}"]).to_string();
                    let v: Value = serde_json::from_str(&kw).unwrap();
                    r.op(format!("Conductance{kw}"), json!({"op": "new", "class": "Conductance", "kw": v}), Want::Raises);
                }
                2 => {
                    let mi = ctx.pick("max_iter", &["256", "-1", "1e3", "\"5\"", "null", "1000000000000"]).to_string();
                    let v: Value = serde_json::from_str(&mi).unwrap();
                    r.op(format!("max_iter={mi}"), json!({"op": "new", "class": "AdaptiveSolverConfig", "args": [0.1, 1.0, v, 1e-3, 1e-6]}), Want::Raises);
                }
                3 => {
                    // solver descriptions: accepted exactly when the Rust library reads them
                    let bc = ctx.flag("boundary");
                    let good = solver_json(ctx.choose("solver", 7), 0.25, &AdaptiveSolverConfig::default()).to_json();
                    let n = good.len();
                    let s = match ctx.choose("text", 10) {
                        0 => good,
                        1 => good.replace("dt", "step"),
                        2 => good.replace("Fixed", "").replace("Method", "").replace("RK", "rk"),
                        3 => good.replace("0.", "zero."),
                        4 => good[..n - 1].to_string(),
                        5 => format!("{good} "),
                        6 => format!("{good}}}"),
                        7 => String::new(),
                        8 => "null".into(),
                        _ => "\"EulerFixed\"".into(),
                    };
                    let rep = [0.0, 1.0];
                    let mut a = vec![("solver_type", text(&s))];
                    a.extend(parts(&mut r, bc, &rep));
                    match SolverTypes::from_json(&s) {
                        Ok(st) => {
                            r.op("a system", new(sys_name(bc), &a, 0, 0), Want::Done);
                            r.view("a system", 0, &rust_sys(bc, st, &rep));
                        }
                        Err(_) => {
                            let mut op = new(sys_name(bc), &a, 0, 0);
                            op.as_object_mut().unwrap().remove("to");
                            r.op(format!("a system with solver_type {s:?}"), op, Want::Raises);
                        }
                    }
                }
                4 => {
                    // one argument of the wrong kind, or missing
                    let bc = ctx.flag("boundary");
                    let mut a = vec![("solver_type", text(&SolverTypes::EulerFixed { dt: 0.1 }.to_json()))];
                    a.extend(parts(&mut r, bc, &[0.0, 1.0]));
                    let k = ctx.choose("argument", 7);
                    match ctx.choose("bad", 4) {
                        0 => {
                            a.remove(k);
                        }
                        1 => a[k].1 = Value::Null,
                        2 => a[k].1 = json!({"slot": if k == 2 || k == 4 { 3 } else { 2 }}),
                        _ => a[k].1 = json!(5),
                    }
                    if a.len() == 7 && k == 1 && a[k].1 == json!({"slot": 2}) && !bc {
                        return ctx.skip();
                    }
                    let mut op = new(sys_name(bc), &a, 1, 0);
                    op.as_object_mut().unwrap().remove("to");
                    r.op(format!("a system with argument {k} wrong"), op, Want::Raises);
                }
                _ => {
                    // nothing to construct these from, no such members
                    let c = CLASSES[ctx.choose("class", CLASSES.len())];
                    r.op("default", json!({"op": "cls", "class": c, "method": "default", "to": 0}), Want::Done);
                    r.op("no such attribute", json!({"op": "get", "slot": 0, "attr": "no_such_thing"}), Want::Raises);
                    r.op("from_json(5)", json!({"op": "cls", "class": c, "method": "from_json", "args": [5]}), Want::Raises);
                    r.op("from_bincode(str)", json!({"op": "cls", "class": c, "method": "from_bincode", "args": ["x"]}), Want::Raises);
                    r.op("to_file(None)", json!({"op": "call", "slot": 0, "method": "to_file", "args": [null]}), Want::Raises);
                }
            }
            r.go(ctx)
        }),
        harness("bad text", move |ctx| {
            let class = CLASSES[ctx.choose("class", CLASSES.len())];
            let form = FORMS[ctx.choose("form", 3)];
            let mut o = default_obj(class);
            match &mut o {
                Obj::System3TM(y) => y.t_report = vec![0.0, 0.5],
                Obj::System3TMWithBC(y) => y.t_report = vec![0.0, 0.5],
                _ => {}
            }
            let doc = match form {
                Form::Json => o.json().into_bytes(),
                Form::Yaml => o.yaml().into_bytes(),
                Form::Bincode => o.bincode(),
            };
            let b: Vec<u8> = match ctx.choose("text", 5) {
                // a document with something around it, or written in another way
                4 => {
                    const AROUND: [(&str, &str); 22] = [("", ""), ("\u{feff}", ""), (" ", " "), ("\n\n", "\n"), ("\t", "\t"), ("\u{a0}", ""), ("", "\u{0}"), ("", " # remark"), ("# remark\n", ""), ("// remark\n", ""), ("/* remark */", ""), ("", ","), ("", ";"), ("---\n", ""), ("", "\n..."), ("", "\n---\n"), ("(", ")"), ("[", "]"), ("\"", "\""), ("'", "'"), ("```\n", "\n```"), ("b'", "'")];
                    let k = ctx.choose("around", AROUND.len() + 7);
                    if k < AROUND.len() {
                        [AROUND[k].0.as_bytes(), &doc, AROUND[k].1.as_bytes()].concat()
                    } else if form == Form::Bincode {
                        match k - AROUND.len() {
                            0 => [&doc[..], &doc[..]].concat(),
                            1 => doc.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes(),
                            2 => doc.iter().rev().cloned().collect(),
                            _ => return ctx.skip(),
                        }
                    } else {
                        let d = std::str::from_utf8(&doc).unwrap();
                        match k - AROUND.len() {
                            0 => format!("{d}{d}"),
                            1 => d.replace('"', "'"),
                            2 => d.replace('}', ",}").replace(']', ",]"),
                            3 => d.replace('\n', "\r\n"),
                            4 => d.replace("0.0", "NaN"),
                            5 => d.replace("0.0", "0"),
                            _ => d.replace("false", "False").replace("null", "None"),
                        }
                        .into_bytes()
                    }
                }
                // cut off anywhere
                0 => {
                    let n = if th || doc.len() < 200 { doc.len() } else { doc.len().min(400) };
                    doc[..ctx.choose("length", n + 1)].to_vec()
                }
                // another class's text
                1 => {
                    let o = default_obj(CLASSES[ctx.choose("class of the text", CLASSES.len())]);
                    match form {
                        Form::Json => o.json().into_bytes(),
                        Form::Yaml => o.yaml().into_bytes(),
                        Form::Bincode => o.bincode(),
                    }
                }
                2 => ctx.pick("text", &["", "null", "{", "[]", "{}", "true", "- 1\n- 2\n", "a: b: c", "\u{0}", "\"x\"", "[1,2,3,4,5,6,7,8]", "{\"temp\":1}"]).as_bytes().to_vec(),
                // one byte replaced
                _ => {
                    let n = doc.len().min(if th { 400 } else { 60 });
                    if n == 0 {
                        return ctx.skip();
                    }
                    let k = ctx.choose("at", n);
                    let mut d = doc.clone();
                    d[k] = *ctx.pick("byte", &[b'9', b'x', b'"', 0]);
                    d
                }
            };
            if form != Form::Bincode && std::str::from_utf8(&b).is_err() {
                return ctx.skip();
            }
            let arg = if form == Form::Bincode { json!({"b": b.iter().map(|x| format!("{x:02x}")).collect::<String>()}) } else { json!(std::str::from_utf8(&b).unwrap()) };
            let mut r = Run::new();
            let what = format!("{class}.{}", from_name(form));
            match load(class, form, &b) {
                Ok(o) => {
                    r.op(&what, json!({"op": "cls", "class": class, "method": from_name(form), "args": [arg], "to": 0}), Want::Done);
                    r.view(what, 0, &o);
                }
                Err(_) => r.op(what, json!({"op": "cls", "class": class, "method": from_name(form), "args": [arg]}), Want::Raises),
            }
            r.go(ctx)
        }),
        harness("files", move |ctx| {
            let class = CLASSES[ctx.choose("class", CLASSES.len())];
            let o = default_obj(class);
            let dir = path("");
            std::fs::create_dir_all(&dir).unwrap();
            let name = *ctx.pick("name", &["a.json", "a.yaml", "a.yml", "a", "a.JSON", ".json", "a.json.bak", "a.bincode", "missing/a.json", "a.b.yaml", "sub.json", "a.toml", "a.json ", " a.yaml", "a b.json", " .json", "~.json", "~", "a%20b.yaml", "a\\b.json", "\u{e9}.json", "a.Yaml", "$HOME.json", "*.json", "a.json\n", "./a.json", "sub.json/../b.yaml", "'a'.json", "a.json.gz", "-.yaml", "#a.json", "a.json?x=1"]);
            std::fs::create_dir_all(format!("{dir}/sub.json")).unwrap();
            let p = format!("{dir}/{name}");
            let q = format!("{dir}/rust-{}", name.replace('/', "_"));
            let mut r = Run::new();
            r.op("default", json!({"op": "cls", "class": class, "method": "default", "to": 0}), Want::Done);
            let rust_write = o.to_file(&p);
            let rust_bytes = std::fs::read(&p).ok();
            let _ = std::fs::remove_file(&p);
            let names = |dir: &str| std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.file_name()).collect::<std::collections::BTreeSet<_>>()).unwrap_or_default();
            let empty = names(&dir);
            let op = json!({"op": "call", "slot": 0, "method": "to_file", "args": [p]});
            match &rust_write {
                Ok(()) => r.op(format!("to_file({name})"), op, Want::Shows(Value::Null)),
                Err(_) => r.op(format!("to_file({name})"), op, Want::Raises),
            }
            let _ = q;
            let pre = ctx.choose("content", 3);
            match pre {
                0 => {}
                1 => {
                    // reading a file the Rust library wrote (when it can) or a document under this name
                    r.go(ctx)?;
                    ensure!(rust_write.is_err() || std::fs::read(&p).ok() == rust_bytes, "to_file({name}) stores other bytes than the Rust library");
                    let _ = std::fs::remove_file(&p);
                    ensure!(names(&dir) == empty, "to_file({name}) leaves other files: {:?}", names(&dir));
                    r = Run::new();
                    let _ = std::fs::write(&p, if name.contains("json") { o.json() } else { o.yaml() });
                }
                _ => {
                    r.go(ctx)?;
                    r = Run::new();
                    let _ = std::fs::write(&p, "{{ not a document");
                }
            }
            if pre == 0 {
                r.go(ctx)?;
                r = Run::new();
            }
            match load_file(class, &p) {
                Ok(o) => {
                    r.op("from_file", json!({"op": "cls", "class": class, "method": "from_file", "args": [p], "to": 1}), Want::Done);
                    r.view("from_file", 1, &o);
                }
                Err(_) => r.op(format!("from_file({name})"), json!({"op": "cls", "class": class, "method": "from_file", "args": [p]}), Want::Raises),
            }
            let res = r.go(ctx);
            let _ = std::fs::remove_dir_all(&dir);
            res
        }),
    ]
}

fn harnesses(id: &str, th: bool) -> Vec<Harness> {
    assert_eq!(id, "C21");
    // the module, from /repo's working tree
    let t = verif().join("target/pymod");
    let o = Command::new("cargo").args(["build", "--offline", "--quiet", "-p", "dess-examples-pyo3", "--manifest-path", "/repo/Cargo.toml"]).env("CARGO_TARGET_DIR", &t).env("PYO3_PYTHON", "/usr/bin/python3.12").env_remove("RUSTFLAGS").output().expect("cargo");
    if !o.status.success() {
        eprintln!("{}", String::from_utf8_lossy(&o.stderr));
        println!("check: the Python module does not build from /repo");
        std::process::exit(3);
    }
    std::fs::create_dir_all(t.join("py")).unwrap();
    let tmp = t.join(format!("py/.new{}", std::process::id()));
    std::fs::copy(t.join("debug/libdess_pyo3.so"), &tmp).unwrap();
    std::fs::rename(&tmp, t.join("py/dess_pyo3.so")).unwrap();
    c21(th)
}
fn main() {
    eng::main(harnesses)
}
