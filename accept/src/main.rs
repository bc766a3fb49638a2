//! C22: every enumerated program is compiled by itself; the compiler's verdict is compared with the acceptance model.
use eng::engine::*;
use eng::{fail, scratch, verif};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

/// compiler arguments for programs, without and with the Python interface
fn flags(py: bool) -> &'static Vec<String> {
    static F: [OnceLock<Vec<String>>; 2] = [OnceLock::new(), OnceLock::new()];
    F[py as usize].get_or_init(|| {
        let dir = verif().join("target/prog").join(if py { "py" } else { "plain" });
        let mut c = Command::new("cargo");
        c.args(["check", "--offline", "--message-format=json", "--manifest-path"]).arg(verif().join("accept/prog/Cargo.toml")).env("CARGO_TARGET_DIR", &dir).env("PYO3_PYTHON", "/usr/bin/python3.12").env_remove("RUSTFLAGS");
        if py {
            c.args(["--features", "pyo3"]);
        }
        let o = c.output().expect("cargo");
        if !o.status.success() {
            eprintln!("{}", String::from_utf8_lossy(&o.stderr));
            println!("check: /repo does not build {}the Python interface", if py { "with " } else { "without " });
            std::process::exit(3);
        }
        let mut a: Vec<String> = vec!["--edition".into(), "2021".into(), "--crate-type".into(), "lib".into(), "--emit=metadata".into(), "--cap-lints".into(), "allow".into(), "-L".into(), format!("dependency={}", dir.join("debug/deps").display())];
        for l in String::from_utf8_lossy(&o.stdout).lines() {
            let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("").replace('-', "_");
            if !["dess", "dess_examples", "serde", "pyo3"].contains(&name.as_str()) {
                continue;
            }
            for f in v["filenames"].as_array().into_iter().flatten().filter_map(|f| f.as_str()) {
                if f.ends_with(".rmeta") {
                    a.push("--extern".into());
                    a.push(format!("{name}={f}"));
                }
            }
        }
        if py {
            a.push("--cfg".into());
            a.push("feature=\"pyo3\"".into());
        }
        a
    })
}

/// None: it compiles; Some: the first error
fn compile(src: &str, py: bool) -> Option<String> {
    static N: AtomicU64 = AtomicU64::new(0);
    let d = scratch();
    let k = N.fetch_add(1, Ordering::Relaxed);
    let f = d.join(format!("p{k}.rs"));
    std::fs::write(&f, src).unwrap();
    let run = || Command::new("rustc").args(flags(py)).arg("--out-dir").arg(&d).arg("--crate-name").arg(format!("p{k}")).arg(&f).env_remove("RUSTFLAGS").output().expect("rustc");
    let mut o = run();
    if !matches!(o.status.code(), Some(0 | 1)) {
        o = run();
    }
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_file(d.join(format!("libp{k}.rmeta")));
    let e = String::from_utf8_lossy(&o.stderr).into_owned();
    match o.status.code() {
        Some(0) => None,
        Some(1) => Some(e.lines().find(|l| l.starts_with("error")).unwrap_or("").to_string()),
        // the compiler itself failed: nothing is known about the program
        _ => {
            println!("check: the compiler did not finish: {}", e.lines().next().unwrap_or(""));
            std::process::exit(3)
        }
    }
}
fn verdict(ctx: &mut Ctx, src: &str, py: bool, accept: bool, what: &str) -> R {
    ctx.note(|| format!("program{}:\n{src}", if py { " (with the Python interface)" } else { "" }));
    ctx.step();
    let v = compile(src, py);
    ctx.state(H::new().b(src.as_bytes()).u(py as u64).done());
    ctx.obs_u(v.is_none() as u64);
    match (accept, v) {
        (true, Some(e)) => fail!("{what} is well-formed but does not compile: {e}"),
        (false, None) => fail!("{what} is ill-formed but compiles"),
        _ => Ok(()),
    }
}

const HEAD: &str = "#![allow(unused)]\nuse dess::prelude::*;\nuse dess_examples::components::*;\nuse serde::{Deserialize, Serialize};\n";
const SYS: &str = "pub solver_type: SolverTypes,\n    #[use_state]\n    pub a: ThermalMass,\n    #[save_state]\n    pub q: Conductance,\n    pub t_report: Vec<f64>,\n    pub state: SystemState,\n    pub history: SystemStateHistoryVec,";

fn c22(th: bool) -> Vec<Harness> {
    vec![
        harness("solver arguments", move |ctx| {
            const ITEMS: [(&str, &str); 10] = [
                ("fn update_derivs", "fn update_derivs(&mut self) { self.reset_derivs(); self.a.step_deriv(1.0); }"),
                ("documented fn update_derivs", "/// updates\n#[inline]\nfn update_derivs(&mut self) { self.reset_derivs(); let t = self.state.time; }"),
                ("fn other", "fn other(&mut self) {}"),
                ("fn update_deriv", "fn update_deriv(&mut self) { self.reset_derivs(); }"),
                ("fn walk", "fn walk(&self) -> f64 { 1.0 }"),
                ("const", "const LAG: f64 = 1.0;"),
                ("type", "type Num = f64;"),
                ("macro call", "some_items!{}"),
                ("struct", "struct Inner;"),
                ("fn without body", "fn update_derivs(&mut self);"),
            ];
            let max = if th { 4 } else { 3 };
            let mut list = vec![];
            while list.len() < max {
                let c = ctx.choose("item", ITEMS.len() + 1);
                if c == 0 {
                    break;
                }
                list.push(c - 1);
            }
            // beyond two items: only lists that have the required function
            if list.len() > 2 && !list.iter().any(|i| *i < 2) || list.len() > 3 && list.iter().filter(|i| **i < 2).count() != 1 {
                return ctx.skip();
            }
            let accept = list.len() == 1 && list[0] < 2;
            let src = format!("{HEAD}macro_rules! some_items {{ () => {{}} }}\n#[solver(\n{}\n)]\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct Y {{\n    {SYS}\n}}\n", list.iter().map(|i| ITEMS[*i].1).collect::<Vec<_>>().join("\n"));
            verdict(ctx, &src, false, accept, &format!("a solver definition with {:?}", list.iter().map(|i| ITEMS[*i].0).collect::<Vec<_>>()))
        }),
        harness("interface arguments", move |ctx| {
            const ITEMS: [(&str, &str, bool); 10] = [
                ("fn", "fn twice(&self) -> f64 { 2.0 }", true),
                ("constructor", "#[new]\nfn new_py() -> Self { Default::default() }", true),
                ("renamed fn", "/// renamed\n#[pyo3(name = \"thrice\")]\nfn thrice_py(&self) -> f64 { 3.0 }", true),
                ("getter", "#[getter]\nfn get_quarter(&self) -> f64 { 0.25 }", true),
                ("fn defaults", "fn defaults(&self) -> f64 { 0.0 }", true),
                ("fn default", "fn default() -> Self { unimplemented!() }", false),
                ("fn default_py", "fn default_py(&self) -> f64 { 1.0 }", false),
                ("const", "const LAG: f64 = 1.0;", false),
                ("type", "type Num = f64;", false),
                ("macro call", "some_items!{}", false),
            ];
            let py = ctx.flag("python");
            let host = ctx.choose("host", 3);
            let max = if th && host == 0 { 3 } else { 2 };
            let mut list: Vec<usize> = vec![];
            while list.len() < max {
                let c = ctx.choose("item", ITEMS.len() + 1);
                if c == 0 {
                    break;
                }
                if list.contains(&(c - 1)) {
                    return ctx.skip();
                }
                list.push(c - 1);
            }
            let accept = list.iter().all(|i| ITEMS[*i].2);
            let args = list.iter().map(|i| ITEMS[*i].1).collect::<Vec<_>>().join("\n");
            let args = if list.is_empty() && ctx.flag("without parentheses") { String::new() } else { format!("(\n{args}\n)") };
            let m = "macro_rules! some_items { () => {} }\n";
            let src = match host {
                0 => format!("{HEAD}{m}#[pyo3_api{args}]\n#[common_derives]\n#[derive(Default)]\npub struct P {{\n    pub x: f64,\n    #[skip_get]\n    pub y: Option<Vec<usize>>,\n}}\n"),
                1 => format!("{HEAD}{m}#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\n#[pyo3_api{args}]\npub struct P {{\n    pub state: ThermalMassState,\n    pub history: ThermalMassStateHistoryVec,\n    pub c: f64,\n}}\n"),
                _ => format!("{HEAD}{m}#[derive(HistoryMethods, BareClone, Default)]\n#[pyo3_api{args}]\n#[solver(fn update_derivs(&mut self) {{ self.reset_derivs(); }})]\n#[common_derives]\npub struct P {{\n    #[skip_get]\n    {SYS}\n}}\n"),
            };
            verdict(ctx, &src, py, accept, &format!("an interface definition with {:?}", list.iter().map(|i| ITEMS[*i].0).collect::<Vec<_>>()))
        }),
        harness("every form of a function", move |ctx| {
            // the rule is about names: neither visibility, qualifiers, attributes, receiver nor result change it
            let vis = *ctx.pick("visibility", &["", "pub ", "pub(crate) "]);
            let qual = *ctx.pick("qualifier", &["", "const ", "unsafe ", "extern \"C\" ", "async "]);
            let attr = *ctx.pick("attribute", &["", "/// documented\n", "#[inline]\n", "#[allow(dead_code)]\n", "#[doc(hidden)]\n#[must_use]\n", "#[cfg(any())]\n"]);
            let sig = ctx.choose("signature", 5);
            let sigs = ["(&self) -> f64 { 1.0 }", "(&mut self) {}", "() -> f64 { 1.0 }", "(self, n: usize) -> usize { n }", "<T>(x: T) -> T where T: Copy { x }"];
            let solver = ctx.flag("solver");
            // thin out: at most two of the four away from the plain form
            let odd = [!vis.is_empty(), !qual.is_empty(), !attr.is_empty(), sig > 0].iter().filter(|x| **x).count();
            if odd > if th { 4 } else { 2 } {
                return ctx.skip();
            }
            if solver {
                let name = *ctx.pick("name", &["other", "update_derivs_", "r#update_deriv", "walk", "states"]);
                let f = format!("{attr}{vis}{qual}fn {name}{}", sigs[sig]);
                let u = "fn update_derivs(&mut self) { self.reset_derivs(); }".to_string();
                let items = match ctx.choose("place", 3) {
                    0 => vec![f],
                    1 => vec![f, u],
                    _ => vec![u, f],
                };
                let src = format!("{HEAD}#[solver(\n{}\n)]\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct Y {{\n    {SYS}\n}}\n", items.join("\n"));
                verdict(ctx, &src, false, false, &format!("a solver definition with {items:?}"))
            } else {
                let (name, reserved) = *ctx.pick("name", &[("default", true), ("default_py", true), ("r#default", true), ("r#default_py", true), ("Default", false), ("default_", false), ("from_default", false)]);
                let py = ctx.flag("python");
                if py && !reserved && (!qual.is_empty() || sig > 1 || attr.contains("must_use") || attr.contains("cfg")) {
                    // what Python methods may look like is not the library's business
                    return ctx.skip();
                }
                let f = format!("{attr}{vis}{qual}fn {name}{}", sigs[sig]);
                let other = "fn twice(&self) -> f64 { 2.0 }".to_string();
                let items = match ctx.choose("place", 3) {
                    0 => vec![f],
                    1 => vec![f, other],
                    _ => vec![other, f],
                };
                let src = format!("{HEAD}#[pyo3_api(\n{}\n)]\n#[common_derives]\n#[derive(Default)]\npub struct P {{\n    pub x: f64,\n}}\n", items.join("\n"));
                verdict(ctx, &src, py, !reserved, &format!("an interface definition with {items:?}"))
            }
        }),
        harness("names of members", move |ctx| {
            // any name a member may have
            const NAMES: [&str; 22] = ["gain", "_gain", "r#in", "r#type", "X", "größe", "time", "i", "dt", "new", "states", "derivs", "walk", "iter", "val", "value", "delta", "len", "bare_clone", "default", "x1", "state_"];
            let py = ctx.flag("python");
            let name = *ctx.pick("name", &NAMES);
            let host = ctx.choose("host", 5);
            let src = match host {
                0 => format!("{HEAD}#[common_derives]\n#[derive(Default, Copy, HistoryVec)]\npub struct S {{\n    pub {name}: f64,\n    pub other: f64,\n}}\npub fn run(h: &mut SHistoryVec) -> Option<S> {{ h.push(Default::default()); h.clear(); h.pop() }}\n"),
                1 => format!("{HEAD}#[pyo3_api]\n#[derive(HistoryMethods, BareClone, Default)]\n#[common_derives]\npub struct P {{\n    pub {name}: Vec<f64>,\n    pub state: ThermalMassState,\n    pub history: ThermalMassStateHistoryVec,\n}}\npub fn run(y: &mut P) -> P {{ y.save_state(); y.bare_clone() }}\n"),
                k => {
                    let comp = ["#[use_state]\n    pub NAME: ThermalMass,", "#[save_state]\n    pub NAME: Conductance,", "pub NAME: String,"][k - 2].replace("NAME", name);
                    let api = if ctx.flag("interface") { "#[pyo3_api]\n" } else { "" };
                    let skip = if api.is_empty() { "" } else { "#[skip_get]\n    " };
                    format!("{HEAD}{api}#[derive(HistoryMethods, BareClone, Default)]\n#[solver(fn update_derivs(&mut self) {{ self.reset_derivs(); }})]\n#[common_derives]\npub struct Y {{\n    {comp}\n    #[use_state]\n    pub a: ThermalMass,\n    {skip}pub solver_type: SolverTypes,\n    pub t_report: Vec<f64>,\n    pub state: SystemState,\n    pub history: SystemStateHistoryVec,\n}}\npub fn run(y: &mut Y) -> Y {{ Y::walk(y); y.save_state(); y.bare_clone() }}\n")
                }
            };
            verdict(ctx, &src, py, true, &format!("a definition with a member called {name}"))
        }),
        harness("history recording", move |ctx| {
            let state = ctx.choose("state", 3);
            let marked = ctx.choose("marked components", 4);
            let plain = ctx.choose("other members", if th { 6 } else { 4 });
            let order = ctx.choose("order", 3);
            let mut f: Vec<&str> = vec![];
            match state {
                1 => f.extend(["pub state: ThermalMassState,", "pub history: ThermalMassStateHistoryVec,"]),
                // similar names only
                2 => f.extend(["pub state_of_charge: f64,", "pub past_history: Vec<f64>,", "pub states: Vec<f64>,"]),
                _ => {}
            }
            match marked {
                1 => f.push("#[use_state]\n    pub a: ThermalMass,"),
                2 => f.push("/// saved\n    #[save_state]\n    pub q: Conductance,"),
                3 => f.extend(["#[save_state]\n    pub r: ThermalReservoir,", "#[use_state]\n    /// used\n    pub b: ThermalMass,"]),
                _ => {}
            }
            match plain {
                1 => f.push("pub free: ThermalMass,"),
                2 => f.extend(["pub free: Conductance,", "pub save_state: bool,", "pub use_state: bool,"]),
                3 => f.push("#[serde(default)]\n    pub note: String,"),
                4 => f.extend(["#[doc = \"use_state\"]\n    pub free: ThermalMass,", "pub n: usize,"]),
                5 => f.push("pub group: Vec<ThermalMass>,"),
                _ => {}
            }
            match order {
                1 => f.reverse(),
                2 => {
                    let n = f.len() / 2;
                    f.rotate_left(n)
                }
                _ => {}
            }
            let accept = state == 1 || marked > 0;
            let bare = ctx.flag("with bare copies");
            let d = if bare || marked > 0 { "HistoryMethods, BareClone, Default" } else { "HistoryMethods" };
            let src = format!("{HEAD}#[derive({d})]\n#[common_derives]\npub struct P {{\n    {}\n}}\npub fn save(p: &mut P) {{ p.save_state() }}\n", f.join("\n    "));
            verdict(ctx, &src, false, accept, &format!("history recording for a structure with members {f:?}"))
        }),
        harness("well-formed systems", move |ctx| {
            // attributes in every order, the documented helpers, component markers
            let py = ctx.flag("python");
            let kind = ctx.choose("attributes", 3);
            let mut pool: Vec<&str> = vec!["#[derive(HistoryMethods, BareClone, Default)]", "#[common_derives]"];
            if kind < 2 {
                pool.push("#[solver(fn update_derivs(&mut self) { self.reset_derivs(); })]");
            }
            pool.push(if kind == 1 { "#[pyo3_api]\n#[walk]" } else { "#[pyo3_api]" });
            let mut attrs = vec![];
            while !pool.is_empty() {
                let k = if pool.len() == 1 { 0 } else { ctx.choose("next attribute", pool.len()) };
                attrs.push(pool.remove(k));
            }
            let marks = ctx.choose("components", 4);
            let comps = ["", "    #[use_state]\n    pub a: ThermalMass,\n", "    #[save_state]\n    pub q: Conductance,\n    pub free: f64,\n", "    #[use_state]\n    #[skip_get]\n    pub a: ThermalMass,\n    pub b: ThermalReservoir,\n"][marks];
            let sys = if kind < 2 { "    #[skip_get]\n    pub solver_type: SolverTypes,\n    pub t_report: Vec<f64>,\n" } else { "" };
            let src = format!("{HEAD}{}\npub struct Y {{\n{sys}{comps}    pub state: SystemState,\n    pub history: SystemStateHistoryVec,\n}}\npub fn run(y: &mut Y) {{ {} y.save_state(); let _ = y.bare_clone(); }}\n", attrs.join("\n"), if kind < 2 { "y.walk();" } else { "" });
            verdict(ctx, &src, py, true, &format!("a definition with attributes {attrs:?}"))
        }),
    ]
}

fn harnesses(id: &str, th: bool) -> Vec<Harness> {
    assert_eq!(id, "C22");
    // both sets of compiler arguments first: building them is not part of any execution
    flags(false);
    flags(true);
    c22(th)
}
fn main() {
    eng::main(harnesses)
}
