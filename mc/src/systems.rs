//! The harness's own dess system: six scalar components whose derivatives come from a pure function of (time, states).
use dess::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

pub const N: usize = 6;

/// A family of right-hand sides, selected by `kind` and parametrised by `p`.
#[common_derives]
#[derive(Default)]
pub struct Rhs {
    pub kind: u8,
    pub p: Vec<f64>,
}

pub const ZERO: u8 = 0;
pub const TREE: u8 = 1;
pub const LINEAR: u8 = 2;
pub const SMOOTH: u8 = 3;
pub const CELLS: u8 = 4;
pub const LOGISTIC: u8 = 5;
pub const JUMP: u8 = 6;
pub const NAN_AFTER: u8 = 7;
pub const CONST: u8 = 8;
pub const STIFF: u8 = 9;
pub const SPIKE: u8 = 10;
pub const QUAD: u8 = 11;
pub const HUGE: u8 = 12;
/// another right-hand side in other units: p = [tau, amp, origin, kind, p...]
pub const UNITS: u8 = 13;
/// a rate of its own at each of the stage times of all the methods: p = [t0, h, mode, values...]
pub const STAGES: u8 = 14;
pub const STAGE_TIMES: [f64; 9] = [0.0, 0.2, 0.3, 0.5, 0.6, 2.0 / 3.0, 0.75, 0.875, 1.0];
pub fn in_units(r: &Rhs, tau: f64, amp: f64, origin: f64) -> Rhs {
    let mut p = vec![tau, amp, origin, r.kind as f64];
    p.extend(&r.p);
    Rhs { kind: UNITS, p }
}

/// y' = f(t, y); pure, shared by the system under test and the reference model
pub fn rhs_eval(k: u8, p: &[f64], t: f64, y: &[f64; N], d: &mut [f64; N]) {
    *d = [0.0; N];
    match k {
        ZERO => {}
        TREE => {
            // p = [t_origin, n, slot_0.., parent_0.., timeleaf_0..]: node v sits in state slot_v;
            // its derivative is the product over its children (a leaf child flagged as time contributes t itself)
            let t0 = p[0];
            let n = p[1] as usize;
            let slot = |v: usize| p[2 + v] as usize;
            let parent = |v: usize| p[2 + n + v];
            let tl = |v: usize| p[2 + 2 * n + v] != 0.0;
            for v in 0..n {
                let mut x = 1.0;
                for c in v + 1..n {
                    if parent(c) == v as f64 {
                        x *= if tl(c) { t - t0 } else { y[slot(c)] };
                    }
                }
                d[slot(v)] = x;
            }
        }
        LINEAR => {
            // p = [n, A row-major n*n, b, c]: y' = A y + b + c t
            let n = p[0] as usize;
            for i in 0..n {
                let mut x = p[1 + n * n + i] + p[1 + n * n + n + i] * t;
                for j in 0..n {
                    x += p[1 + i * n + j] * y[j];
                }
                d[i] = x;
            }
        }
        SMOOTH => {
            let (a, b) = (p[0], p[1]);
            for i in 0..N {
                let z = y[(i + 1) % N];
                d[i] = a * (z + 0.3 * i as f64).sin() - 0.2 * y[i] + b * (t * (1.0 + 0.25 * i as f64)).cos();
            }
        }
        CELLS => {
            // p = [width, t_origin, values...]: piecewise constant in time, beyond the cells: last value
            let w = p[0];
            let n = p.len() - 2;
            let i = (((t - p[1]) / w).floor().max(0.0) as usize).min(n - 1);
            d[0] = p[2 + i];
        }
        LOGISTIC => {
            for i in 0..3 {
                d[i] = p[0] * (1.0 + i as f64) * y[i] * (1.0 - y[i]);
            }
        }
        JUMP => {
            d[0] = if t < p[0] { p[1] } else { p[2] };
        }
        NAN_AFTER => {
            d[0] = if t < p[0] { 1.0 } else { f64::NAN };
        }
        CONST => {
            for i in 0..p.len().min(N) {
                d[i] = p[i];
            }
        }
        STIFF => {
            d[0] = -p[0] * (y[0] - t.cos());
            d[1] = y[0] - y[1];
        }
        SPIKE => {
            // a narrow pulse
            d[0] = if t >= p[0] && t < p[0] + p[1] { p[2] } else { 0.0 };
        }
        QUAD => {
            // y' = p0 + p1 t + p2 t^2 (+ state coupling p3)
            for i in 0..2 {
                let s = 1.0 + i as f64;
                d[i] = s * (p[0] + p[1] * t + p[2] * t * t) + p[3] * y[1 - i];
            }
        }
        HUGE => {
            d[0] = p[0];
            d[1] = p[0] * t;
        }
        STAGES => {
            // value of the nearest stage time; the second step takes the values in another order, the ends being shared
            let u = (t - p[0]) / p[1];
            let second = u > 1.0 + 1.0 / 24.0;
            let u = if second { u - 1.0 } else { u };
            let n = (0..9).min_by(|a, b| (STAGE_TIMES[*a] - u).abs().total_cmp(&(STAGE_TIMES[*b] - u).abs())).unwrap();
            let v = p[3 + if second { (n * 2 + 8) % 9 } else { n }];
            d[0] = v;
            match p[2] as usize {
                0 => {}
                1 => d[5] = 0.3,
                2 => d[1] = y[0],
                _ => d[3] = -v,
            }
        }
        UNITS => {
            let (tau, amp) = (p[0], p[1]);
            let z: [f64; N] = std::array::from_fn(|i| y[i] / amp);
            rhs_eval(p[3] as u8, &p[4..], (t - p[2]) / tau, &z, d);
            d.iter_mut().for_each(|x| *x *= amp / tau);
        }
        _ => unreachable!(),
    }
}

#[derive(Default)]
pub struct Probe {
    pub on: bool,
    pub times: Vec<f64>,
    pub evals: u64,
    pub budget: u64,
    /// called at every model evaluation (scheduling point / nested work)
    pub hook: Option<Box<dyn FnMut(u64)>>,
}
thread_local! {
    pub static PROBE: RefCell<Probe> = RefCell::new(Probe::default());
}
/// start observing model evaluations on this thread; more than `budget` of them is reported as non-termination
pub fn probe_start(times: bool, budget: u64) {
    PROBE.with(|p| *p.borrow_mut() = Probe { on: times, times: vec![], evals: 0, budget, hook: None });
}
pub fn probe_evals() -> u64 {
    PROBE.with(|p| p.borrow().evals)
}
pub fn probe_take_times() -> Vec<f64> {
    PROBE.with(|p| std::mem::take(&mut p.borrow_mut().times))
}
pub fn probe_hit(t: f64) {
    let (over, hook) = PROBE.with(|p| {
        let mut p = p.borrow_mut();
        p.evals += 1;
        if p.on {
            p.times.push(t);
        }
        (p.budget != 0 && p.evals > p.budget, p.hook.take().map(|h| (h, p.evals)))
    });
    if over {
        panic!("model evaluation budget exceeded: the walk does not terminate within the expected work");
    }
    if let Some((mut h, n)) = hook {
        h(n);
        PROBE.with(|p| p.borrow_mut().hook = Some(h));
    }
}

/// component with capacity, state and history; relies on the HasState default methods of dess
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Node {
    pub cap: f64,
    pub state: NodeState,
    pub history: NodeStateHistoryVec,
}
#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct NodeState {
    pub x: f64,
    pub dx: f64,
}
impl HasState for Node {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.dx
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.dx = val;
    }
    fn storage(&self) -> f64 {
        self.cap
    }
}
pub fn node(x: f64) -> Node {
    Node { cap: 1.0, state: NodeState { x, dx: 0.0 }, history: Default::default() }
}

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        probe_hit(self.state.time);
        let y = [self.n0.state.x, self.n1.state.x, self.n2.state.x, self.n3.state.x, self.n4.state.x, self.n5.state.x];
        let mut d = [0.0; N];
        rhs_eval(self.rhs.kind, &self.rhs.p, self.state.time, &y, &mut d);
        self.n0.step_deriv(d[0]);
        self.n1.step_deriv(d[1]);
        self.n2.step_deriv(d[2]);
        self.n3.step_deriv(d[3]);
        self.n4.step_deriv(d[4]);
        self.n5.step_deriv(d[5]);
    }
)]
#[derive(HistoryMethods, BareClone)]
#[common_derives]
pub struct GenSys {
    pub solver_type: SolverTypes,
    pub rhs: Rhs,
    #[use_state]
    pub n0: Node,
    #[use_state]
    pub n1: Node,
    #[use_state]
    pub n2: Node,
    #[use_state]
    pub n3: Node,
    #[use_state]
    pub n4: Node,
    #[use_state]
    pub n5: Node,
    pub t_report: Vec<f64>,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}
impl Default for GenSys {
    fn default() -> Self {
        gen_sys(SolverTypes::default(), Rhs::default(), 0.0, &[0.0; N], vec![0.0, 1.0])
    }
}
pub fn gen_sys(st: SolverTypes, rhs: Rhs, t0: f64, y0: &[f64; N], t_report: Vec<f64>) -> GenSys {
    GenSys {
        solver_type: st,
        rhs,
        n0: node(y0[0]),
        n1: node(y0[1]),
        n2: node(y0[2]),
        n3: node(y0[3]),
        n4: node(y0[4]),
        n5: node(y0[5]),
        t_report,
        state: SystemState { i: 0, time: t0 },
        history: Default::default(),
    }
}
impl GenSys {
    pub fn y(&self) -> [f64; N] {
        [self.n0.state.x, self.n1.state.x, self.n2.state.x, self.n3.state.x, self.n4.state.x, self.n5.state.x]
    }
    pub fn dy(&self) -> [f64; N] {
        [self.n0.state.dx, self.n1.state.dx, self.n2.state.dx, self.n3.state.dx, self.n4.state.dx, self.n5.state.dx]
    }
    pub fn nodes(&self) -> [&Node; N] {
        [&self.n0, &self.n1, &self.n2, &self.n3, &self.n4, &self.n5]
    }
    /// state row k of the histories
    pub fn row(&self, k: usize) -> [f64; N] {
        let n = self.nodes();
        std::array::from_fn(|i| n[i].history.x[k])
    }
    pub fn drow(&self, k: usize) -> [f64; N] {
        let n = self.nodes();
        std::array::from_fn(|i| n[i].history.dx[k])
    }
    pub fn f(&self, t: f64, y: &[f64; N]) -> [f64; N] {
        let mut d = [0.0; N];
        rhs_eval(self.rhs.kind, &self.rhs.p, t, y, &mut d);
        d
    }
    pub fn conf(&self) -> Option<&AdaptiveSolverConfig> {
        conf_of(&self.solver_type)
    }
}
pub fn conf_of(s: &SolverTypes) -> Option<&AdaptiveSolverConfig> {
    match s {
        SolverTypes::RK23BogackiShampine(c) | SolverTypes::RK45CashKarp(c) => Some(c),
        _ => None,
    }
}

pub const SOLVERS: [&str; 7] = ["Euler", "Heun", "Midpoint", "Ralston", "RK4", "RK23", "RK45"];
pub const FIXED: usize = 5;
pub fn fixed(s: usize, dt: f64) -> SolverTypes {
    match s {
        0 => SolverTypes::EulerFixed { dt },
        1 => SolverTypes::HeunsMethod { dt },
        2 => SolverTypes::MidpointMethod { dt },
        3 => SolverTypes::RalstonsMethod { dt },
        4 => SolverTypes::RK4Fixed { dt },
        _ => unreachable!(),
    }
}
pub fn adaptive(s: usize, c: AdaptiveSolverConfig) -> SolverTypes {
    match s {
        5 => SolverTypes::RK23BogackiShampine(Box::new(c)),
        6 => SolverTypes::RK45CashKarp(Box::new(c)),
        _ => unreachable!(),
    }
}
pub fn aconf(dt: f64, dt_max: f64, max_iter: u8, rtol: f64, atol: f64, save: bool, save_states: bool) -> AdaptiveSolverConfig {
    AdaptiveSolverConfig {
        dt_max,
        max_iter,
        atol,
        rtol,
        save,
        save_states,
        state: SolverState { dt, ..Default::default() },
        history: Default::default(),
    }
}
/// solver `s` with step (or initial step) dt; adaptive ones with default tolerances unless given
pub fn solver(s: usize, dt: f64) -> SolverTypes {
    if s < FIXED {
        fixed(s, dt)
    } else {
        adaptive(s, aconf(dt, 10.0, 5, 1e-5, 1e-9, false, false))
    }
}
