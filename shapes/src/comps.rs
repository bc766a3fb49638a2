//! Component types the generated definitions are built from, and the views the harness has of them.
use dess::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Copy, HistoryVec, Default)]
#[common_derives]
#[pyo3_api]
pub struct St {
    pub x: f64,
    pub d: f64,
}

/// default methods of HasState throughout
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Nd {
    pub cap: f64,
    pub state: St,
    pub history: StHistoryVec,
}
impl HasState for Nd {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.d
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.d = val;
    }
    fn storage(&self) -> f64 {
        self.cap
    }
}

/// every method of its own
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Ov {
    pub state: St,
    pub history: StHistoryVec,
    pub cap: f64,
}
impl HasState for Ov {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val + 0.125;
    }
    fn step_state_by_dt(&mut self, dt: &f64) {
        self.state.x += 0.5 * dt * self.state.d;
    }
    fn step_state(&mut self, val: f64) {
        self.state.x += 2.0 * val;
    }
    fn deriv(&self) -> f64 {
        self.state.d
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.d = 0.75 * val;
    }
    fn step_deriv(&mut self, val: f64) {
        self.state.d += 3.0 * val;
    }
    fn storage(&self) -> f64 {
        self.cap * 10.0
    }
}

/// records, but has no state equation
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Sv {
    pub history: StHistoryVec,
    pub state: St,
}

/// no state of its own: its marked members record
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Gr {
    #[save_state]
    pub a: Nd,
    pub b: Nd,
    #[use_state]
    pub c: Sv,
}

/// a state and a nested group
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
#[pyo3_api]
pub struct Dp {
    #[save_state]
    pub sub: Gr,
    pub state: St,
    pub other: Sv,
    pub cap: f64,
    pub history: StHistoryVec,
}
impl HasState for Dp {
    fn state(&self) -> f64 {
        self.state.x
    }
    fn set_state(&mut self, val: f64) {
        self.state.x = val;
    }
    fn deriv(&self) -> f64 {
        self.state.d
    }
    fn set_deriv(&mut self, val: f64) {
        self.state.d = val;
    }
    fn storage(&self) -> f64 {
        self.cap
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Nd,
    Ov,
    Sv,
    Gr,
    Dp,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mark {
    Use,
    Save,
    Both,
    No,
}
impl Mark {
    pub fn uses(self) -> bool {
        matches!(self, Mark::Use | Mark::Both)
    }
    pub fn records(self) -> bool {
        self != Mark::No
    }
}

/// one place in a component that has a state and a history
#[derive(Clone, PartialEq, Debug)]
pub struct Leaf {
    pub x: f64,
    pub d: f64,
    pub cap: f64,
    pub hist: Vec<(f64, f64)>,
    /// recorded when the component it is in is told to save
    pub rec: bool,
}
fn leaf(s: &St, cap: f64, h: &StHistoryVec, rec: bool) -> Leaf {
    assert!(h.x.len() == h.d.len(), "ragged history");
    Leaf { x: s.x, d: s.d, cap, hist: h.x.iter().copied().zip(h.d.iter().copied()).collect(), rec }
}
fn set(s: &mut St, v: &mut f64) {
    s.x = *v;
    s.d = -0.5 * *v + 1.0;
    *v += 1.25;
}
pub trait Part {
    fn kind(&self) -> Kind;
    fn leaves(&self) -> Vec<Leaf>;
    /// the current values at the same places
    fn leaves_now(&self) -> Vec<(f64, f64)>;
    /// overwrite all states (not the histories)
    fn poke(&mut self, v: &mut f64);
    /// set capacities
    fn caps(&mut self, v: f64);
    /// add a record to every history by hand
    fn stain(&mut self, v: f64);
}
macro_rules! simple_part {
    ($t:ident, $k:expr) => {
        impl Part for $t {
            fn kind(&self) -> Kind {
                $k
            }
            fn leaves(&self) -> Vec<Leaf> {
                vec![leaf(&self.state, self.cap, &self.history, true)]
            }
            fn leaves_now(&self) -> Vec<(f64, f64)> {
                vec![(self.state.x, self.state.d)]
            }
            fn poke(&mut self, v: &mut f64) {
                set(&mut self.state, v)
            }
            fn caps(&mut self, v: f64) {
                self.cap = v
            }
            fn stain(&mut self, v: f64) {
                self.history.push(St { x: v, d: v })
            }
        }
    };
}
simple_part!(Nd, Kind::Nd);
simple_part!(Ov, Kind::Ov);
impl Part for Sv {
    fn kind(&self) -> Kind {
        Kind::Sv
    }
    fn leaves(&self) -> Vec<Leaf> {
        vec![leaf(&self.state, 0.0, &self.history, true)]
    }
    fn leaves_now(&self) -> Vec<(f64, f64)> {
        vec![(self.state.x, self.state.d)]
    }
    fn poke(&mut self, v: &mut f64) {
        set(&mut self.state, v)
    }
    fn caps(&mut self, _v: f64) {}
    fn stain(&mut self, v: f64) {
        self.history.push(St { x: v, d: v })
    }
}
impl Part for Gr {
    fn kind(&self) -> Kind {
        Kind::Gr
    }
    fn leaves(&self) -> Vec<Leaf> {
        let mut l = self.a.leaves();
        l.extend(self.b.leaves().into_iter().map(|mut l| {
            l.rec = false;
            l
        }));
        l.extend(self.c.leaves());
        l
    }
    fn leaves_now(&self) -> Vec<(f64, f64)> {
        [self.a.leaves_now(), self.b.leaves_now(), self.c.leaves_now()].concat()
    }
    fn poke(&mut self, v: &mut f64) {
        self.a.poke(v);
        self.b.poke(v);
        self.c.poke(v);
    }
    fn caps(&mut self, v: f64) {
        self.a.caps(v);
        self.b.caps(v + 0.5);
    }
    fn stain(&mut self, v: f64) {
        self.a.stain(v);
        self.b.stain(v);
        self.c.stain(v);
    }
}
impl Part for Dp {
    fn kind(&self) -> Kind {
        Kind::Dp
    }
    fn leaves(&self) -> Vec<Leaf> {
        let mut l = vec![leaf(&self.state, self.cap, &self.history, true)];
        l.extend(self.sub.leaves());
        l.extend(self.other.leaves().into_iter().map(|mut l| {
            l.rec = false;
            l
        }));
        l
    }
    fn leaves_now(&self) -> Vec<(f64, f64)> {
        [vec![(self.state.x, self.state.d)], self.sub.leaves_now(), self.other.leaves_now()].concat()
    }
    fn poke(&mut self, v: &mut f64) {
        set(&mut self.state, v);
        self.sub.poke(v);
        self.other.poke(v);
    }
    fn caps(&mut self, v: f64) {
        self.cap = v;
        self.sub.caps(v + 0.25);
    }
    fn stain(&mut self, v: f64) {
        self.history.push(St { x: v, d: v });
        self.sub.stain(v);
        self.other.stain(v);
    }
}

/// own state and history of a system: (i, time) rows
pub type Rows = Vec<(usize, f64)>;

/// object-safe view of a generated definition
pub trait Shape: Send {
    fn name(&self) -> &'static str;
    fn marks(&self) -> &'static [Mark];
    fn parts(&self) -> Vec<&dyn Part>;
    fn parts_mut(&mut self) -> Vec<&mut dyn Part>;
    fn save(&mut self);
    fn bare(&self) -> Box<dyn Shape>;
    fn full(&self) -> Box<dyn Shape>;
    fn bytes(&self) -> Vec<u8>;
    fn par(&self) -> (f64, String);
    fn set_par(&mut self, p: f64, t: &str);
    /// the solver side, if it is a system
    fn sys(&self) -> Option<&dyn Sys>;
    fn sys_mut(&mut self) -> Option<&mut dyn Sys>;
}
pub trait Sys {
    fn states(&self) -> Vec<f64>;
    fn set_states(&mut self, v: Vec<f64>);
    fn step_states(&mut self, v: Vec<f64>);
    fn step_states_by_dt(&mut self, dt: f64);
    fn derivs(&self) -> Vec<f64>;
    fn set_derivs(&mut self, v: &[f64]);
    fn step_derivs(&mut self, v: Vec<f64>);
    fn storages(&self) -> Vec<f64>;
    fn reset_derivs(&mut self);
    fn update_derivs(&mut self);
    fn step_time(&mut self, dt: f64);
    fn conf(&self) -> Option<AdaptiveSolverConfig>;
    fn conf_mut(&mut self) -> Option<&mut AdaptiveSolverConfig>;
    fn own(&self) -> (usize, f64);
    /// the state as the solver interface shows it
    fn own_seen(&self) -> (usize, f64);
    fn set_own(&mut self, i: usize, t: f64);
    fn rows(&self) -> Rows;
    fn push_row(&mut self, i: usize, t: f64);
    fn solver(&self) -> SolverTypes;
    fn set_solver(&mut self, s: SolverTypes);
    fn report(&self) -> Vec<f64>;
    fn set_report(&mut self, r: Vec<f64>);
    fn solve_step(&mut self);
    fn walk(&mut self);
}
#[macro_export]
macro_rules! shape {
    ($t:ident, [$($f:ident),*], [$($m:ident),*], sys=$s:tt) => {
        impl Shape for $t {
            fn name(&self) -> &'static str { stringify!($t) }
            fn marks(&self) -> &'static [Mark] { &[$(Mark::$m),*] }
            fn parts(&self) -> Vec<&dyn $crate::comps::Part> { vec![$(&self.$f),*] }
            fn parts_mut(&mut self) -> Vec<&mut dyn $crate::comps::Part> { vec![$(&mut self.$f),*] }
            fn save(&mut self) { self.save_state() }
            fn bare(&self) -> Box<dyn Shape> { Box::new(self.bare_clone()) }
            fn full(&self) -> Box<dyn Shape> { Box::new(self.clone()) }
            fn bytes(&self) -> Vec<u8> { self.to_bincode() }
            fn par(&self) -> (f64, String) { (self.par, format!("{} {:?} {} {} {} {:?} {:?} {:?} {:?} {} {} {:?} {:?} {} {}", self.tag, self.old_history, self.state_note, self.history_kept, self._hidden, self.r#yield, self.opt, self.pair, self.arr, self.cached, self.dt, self.spare_state, self.map, self.r#in_use, $crate::more_pars!($s, self))) }
            fn set_par(&mut self, p: f64, t: &str) {
                self.par = p;
                self.tag = t.to_string();
                self.old_history = vec![p, 1.0];
                self.state_note = -p;
                self.history_kept = true;
                self._hidden = p + 1.0;
                self.r#yield = vec![p, p + 2.0];
                self.opt = Some(p + 3.0);
                self.pair = (p + 4.0, true);
                self.arr = [p, -p, p + 5.0];
                self.cached = p + 6.0;
                self.dt = p + 7.0;
                self.spare_state = $crate::comps::St { x: p + 8.0, d: p + 9.0 };
                self.map = [(t.to_string(), p)].into_iter().collect();
                self.r#in_use = 7;
                $crate::more_set!($s, self, p);
            }
            $crate::sys_view!($s);
        }
        $crate::sys_impl!($s, $t);
    };
}
#[macro_export]
macro_rules! more_pars {
    (true, $y:ident) => {
        format!("{:?} {:?} {} {}", $y.boxed, $y.nested, $y.time, $y.i)
    };
    (false, $y:ident) => {
        ""
    };
}
#[macro_export]
macro_rules! more_set {
    (true, $y:ident, $p:ident) => {
        $y.boxed = Some(Box::new($p + 10.0));
        $y.nested = vec![vec![$p], vec![]];
        $y.time = $p + 11.0;
        $y.i = 12;
    };
    (false, $y:ident, $p:ident) => {};
}
#[macro_export]
macro_rules! sys_view {
    (true) => {
        fn sys(&self) -> Option<&dyn $crate::comps::Sys> { Some(self) }
        fn sys_mut(&mut self) -> Option<&mut dyn $crate::comps::Sys> { Some(self) }
    };
    (false) => {
        fn sys(&self) -> Option<&dyn $crate::comps::Sys> { None }
        fn sys_mut(&mut self) -> Option<&mut dyn $crate::comps::Sys> { None }
    };
}
#[macro_export]
macro_rules! sys_impl {
    (false, $t:ident) => {};
    (true, $t:ident) => {
        impl $crate::comps::Sys for $t {
            fn states(&self) -> Vec<f64> { HasStates::states(self) }
            fn set_states(&mut self, v: Vec<f64>) { HasStates::set_states(self, v) }
            fn step_states(&mut self, v: Vec<f64>) { HasStates::step_states(self, v) }
            fn step_states_by_dt(&mut self, dt: f64) { HasStates::step_states_by_dt(self, &dt) }
            fn derivs(&self) -> Vec<f64> { HasStates::derivs(self) }
            fn set_derivs(&mut self, v: &[f64]) { HasStates::set_derivs(self, v) }
            fn step_derivs(&mut self, v: Vec<f64>) { HasStates::step_derivs(self, v) }
            fn storages(&self) -> Vec<f64> { HasStates::storages(self) }
            fn reset_derivs(&mut self) { SolverBase::reset_derivs(self) }
            fn update_derivs(&mut self) { SolverBase::update_derivs(self) }
            fn step_time(&mut self, dt: f64) { SolverBase::step_time(self, &dt) }
            fn conf(&self) -> Option<AdaptiveSolverConfig> { self.sc().cloned() }
            fn conf_mut(&mut self) -> Option<&mut AdaptiveSolverConfig> { self.sc_mut() }
            fn own(&self) -> (usize, f64) { (self.state.i, self.state.time) }
            fn own_seen(&self) -> (usize, f64) { let s = SolverBase::state(self); (s.i, s.time) }
            fn set_own(&mut self, i: usize, t: f64) { self.state = SystemState { i, time: t }; }
            fn rows(&self) -> $crate::comps::Rows { assert!(self.history.i.len() == self.history.time.len(), "ragged history"); self.history.i.iter().copied().zip(self.history.time.iter().copied()).collect() }
            fn push_row(&mut self, i: usize, t: f64) { self.history.push(SystemState { i, time: t }) }
            fn solver(&self) -> SolverTypes { self.solver_type.clone() }
            fn set_solver(&mut self, s: SolverTypes) { self.solver_type = s; }
            fn report(&self) -> Vec<f64> { self.t_report.clone() }
            fn set_report(&mut self, r: Vec<f64>) { self.t_report = r; }
            fn solve_step(&mut self) { $t::solve_step(self) }
            fn walk(&mut self) { $t::walk(self) }
        }
    };
}
