// generated by tools/gen_shapes.py
use crate::comps::{Dp, Gr, Mark, Nd, Ov, Shape, St, Sv};
use crate::shape;
use dess::prelude::*;
use serde::{Deserialize, Serialize};


#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YL0, [], [], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YL1, [], [], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YL2 {
    pub state: SystemState,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YL2, [], [], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUL0, [c0], [Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.z99.step_deriv(-0.5 * self.z99.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub z99: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUL1, [z99], [Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.t_report_0.step_deriv(-0.5 * self.t_report_0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub t_report_0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUL2, [t_report_0], [Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSL0, [c0], [Save], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub history_0: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSL1, [history_0], [Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub y99: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSL2, [y99], [Save], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNL0, [c0], [No], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub a0: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNL1, [a0], [No], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNL2 {
    pub state: SystemState,
    /// a component
    pub __p0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNL2, [__p0], [No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.2 * self.par);
        self.c0.step_deriv(0.25 * self.c1.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUUL0, [c0, c1], [Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.z99.step_deriv(-0.5 * self.z99.state() + 0.125 * t + 0.1 * self.par);
        self.history_1.step_deriv(-0.5 * self.history_1.state() + 0.125 * t + 0.2 * self.par);
        self.z99.step_deriv(0.25 * self.history_1.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub z99: Ov,
    #[use_state]
    /// a component
    pub history_1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUUL1, [z99, history_1], [Use, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.t_report_0.step_deriv(-0.5 * self.t_report_0.state() + 0.125 * t + 0.1 * self.par);
        self.y98.step_deriv(-0.5 * self.y98.state() + 0.125 * t + 0.2 * self.par);
        self.t_report_0.step_deriv(0.25 * self.y98.state());
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUUL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub t_report_0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub y98: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUUL2, [t_report_0, y98], [Use, Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUSL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Ov,
    #[save_state]
    pub c1: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUSL0, [c0, c1], [Use, Save], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.history_0.step_deriv(-0.5 * self.history_0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub history_0: Dp,
    #[save_state]
    /// a component
    pub a1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUSL1, [history_0, a1], [Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.y99.step_deriv(-0.5 * self.y99.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUSL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub y99: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub __p1: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUSL2, [y99, __p1], [Use, Save], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    pub c1: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUNL0, [c0, c1], [Use, No], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.a0.step_deriv(-0.5 * self.a0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUNL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub a0: Nd,
    /// a component
    pub _c1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUNL1, [a0, _c1], [Use, No], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.__p0.step_deriv(-0.5 * self.__p0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUNL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub __p0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub r#type: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUNL2, [__p0, r#type], [Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Dp,
    #[use_state]
    pub c1: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSUL0, [c0, c1], [Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.r#type.step_deriv(-0.5 * self.r#type.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub _c0: Sv,
    #[use_state]
    /// a component
    pub r#type: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSUL1, [_c0, r#type], [Save, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.solver_type1.step_deriv(-0.5 * self.solver_type1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSUL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub r#in: Gr,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub solver_type1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSUL2, [r#in, solver_type1], [Save, Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSSL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Sv,
    #[save_state]
    pub c1: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSSL0, [c0, c1], [Save, Save], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub r#in: Gr,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSSL1, [r#in, Cap1], [Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub solver_type0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub new1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSSL2, [solver_type0, new1], [Save, Save], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Gr,
    pub c1: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSNL0, [c0, c1], [Save, No], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSNL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub Cap0: Nd,
    /// a component
    pub größe1: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSNL1, [Cap0, größe1], [Save, No], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSNL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub new0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub tank1_history: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSNL2, [new0, tank1_history], [Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[use_state]
    pub c1: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNUL0, [c0, c1], [No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.state_1.step_deriv(-0.5 * self.state_1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub größe0: Gr,
    #[use_state]
    /// a component
    pub state_1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNUL1, [größe0, state_1], [No, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.b98_state.step_deriv(-0.5 * self.b98_state.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNUL2 {
    pub state: SystemState,
    /// a component
    pub tank0_history: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub b98_state: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNUL2, [tank0_history, b98_state], [No, Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNSL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Gr,
    #[save_state]
    pub c1: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNSL0, [c0, c1], [No, Save], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub state_0: Nd,
    #[save_state]
    /// a component
    pub z98: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNSL1, [state_0, z98], [No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNSL2 {
    pub state: SystemState,
    /// a component
    pub b99_state: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub t_report_1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNSL2, [b99_state, t_report_1], [No, Save], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Nd,
    pub c1: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNNL0, [c0, c1], [No, No], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNNL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub z99: Sv,
    /// a component
    pub history_1: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNNL1, [z99, history_1], [No, No], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNNL2 {
    pub state: SystemState,
    /// a component
    pub t_report_0: Ov,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub y98: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNNL2, [t_report_0, y98], [No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.2 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.3 * self.par);
        self.c0.step_deriv(0.25 * self.c1.state());
        self.c1.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUUUL0, [c0, c1, c2], [Use, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.z99.step_deriv(-0.5 * self.z99.state() + 0.125 * t + 0.1 * self.par);
        self.history_1.step_deriv(-0.5 * self.history_1.state() + 0.125 * t + 0.2 * self.par);
        self.a2.step_deriv(-0.5 * self.a2.state() + 0.125 * t + 0.3 * self.par);
        self.z99.step_deriv(0.25 * self.history_1.state());
        self.history_1.step_deriv(0.25 * self.a2.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub z99: Ov,
    #[use_state]
    /// a component
    pub history_1: Dp,
    #[use_state]
    pub a2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUUUL1, [z99, history_1, a2], [Use, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.history_0.step_deriv(-0.5 * self.history_0.state() + 0.125 * t + 0.1 * self.par);
        self.a1.step_deriv(-0.5 * self.a1.state() + 0.125 * t + 0.2 * self.par);
        self.history_0.step_deriv(0.25 * self.a1.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUUSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub history_0: Dp,
    #[use_state]
    /// a component
    pub a1: Nd,
    #[save_state]
    pub _c2: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUUSL1, [history_0, a1, _c2], [Use, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.y99.step_deriv(-0.5 * self.y99.state() + 0.125 * t + 0.1 * self.par);
        self.__p1.step_deriv(-0.5 * self.__p1.state() + 0.125 * t + 0.2 * self.par);
        self.y99.step_deriv(0.25 * self.__p1.state());
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUUSL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub y99: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub __p1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub r#match: Gr,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUUSL2, [y99, __p1, r#match], [Use, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.__p0.step_deriv(-0.5 * self.__p0.state() + 0.125 * t + 0.1 * self.par);
        self.r#type.step_deriv(-0.5 * self.r#type.state() + 0.125 * t + 0.2 * self.par);
        self.__p0.step_deriv(0.25 * self.r#type.state());
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUUNL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub __p0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub r#type: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub solver_type2: Ov,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUUNL2, [__p0, r#type, solver_type2], [Use, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.2 * self.par);
        self.c0.step_deriv(0.25 * self.c1.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUUNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    #[use_state]
    pub c1: Nd,
    /// a component
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUUNL0, [c0, c1, c2], [Use, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.2 * self.par);
        self.c0.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUSUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[save_state]
    pub c1: Sv,
    /// a component
    #[use_state]
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUSUL0, [c0, c1, c2], [Use, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self._c0.step_deriv(-0.5 * self._c0.state() + 0.125 * t + 0.1 * self.par);
        self.Cap2.step_deriv(-0.5 * self.Cap2.state() + 0.125 * t + 0.2 * self.par);
        self._c0.step_deriv(0.25 * self.Cap2.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUSUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub _c0: Nd,
    #[save_state]
    /// a component
    pub r#type: Gr,
    #[use_state]
    pub Cap2: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUSUL1, [_c0, r#type, Cap2], [Use, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.r#in.step_deriv(-0.5 * self.r#in.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUSSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub r#in: Ov,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    #[save_state]
    pub größe2: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUSSL1, [r#in, Cap1, größe2], [Use, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.solver_type0.step_deriv(-0.5 * self.solver_type0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUSSL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub solver_type0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub new1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub tank2_history: Sv,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUSSL2, [solver_type0, new1, tank2_history], [Use, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.new0.step_deriv(-0.5 * self.new0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUSNL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub new0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub tank1_history: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub b97_state: Sv,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUSNL2, [new0, tank1_history, b97_state], [Use, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUSNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Ov,
    #[save_state]
    pub c1: Nd,
    /// a component
    pub c2: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUSNL0, [c0, c1, c2], [Use, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.2 * self.par);
        self.c0.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUNUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    pub c1: Gr,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUNUL0, [c0, c1, c2], [Use, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.größe0.step_deriv(-0.5 * self.größe0.state() + 0.125 * t + 0.1 * self.par);
        self.z97.step_deriv(-0.5 * self.z97.state() + 0.125 * t + 0.2 * self.par);
        self.größe0.step_deriv(0.25 * self.z97.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUNUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub größe0: Nd,
    /// a component
    pub state_1: Nd,
    #[use_state]
    pub z97: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUNUL1, [größe0, state_1, z97], [Use, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.state_0.step_deriv(-0.5 * self.state_0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YUNSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub state_0: Nd,
    /// a component
    pub z98: Sv,
    #[save_state]
    pub history_2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YUNSL1, [state_0, z98, history_2], [Use, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.b99_state.step_deriv(-0.5 * self.b99_state.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUNSL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub b99_state: Ov,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub t_report_1: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub y97: Dp,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUNSL2, [b99_state, t_report_1, y97], [Use, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.t_report_0.step_deriv(-0.5 * self.t_report_0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YUNNL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub t_report_0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub y98: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub __p2: Nd,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YUNNL2, [t_report_0, y98, __p2], [Use, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YUNNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    pub c1: Sv,
    /// a component
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YUNNL0, [c0, c1, c2], [Use, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.2 * self.par);
        self.c1.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Gr,
    #[use_state]
    pub c1: Dp,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSUUL0, [c0, c1, c2], [Save, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.a1.step_deriv(-0.5 * self.a1.state() + 0.125 * t + 0.1 * self.par);
        self._c2.step_deriv(-0.5 * self._c2.state() + 0.125 * t + 0.2 * self.par);
        self.a1.step_deriv(0.25 * self._c2.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub history_0: Nd,
    #[use_state]
    /// a component
    pub a1: Nd,
    #[use_state]
    pub _c2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSUUL1, [history_0, a1, _c2], [Save, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self._c1.step_deriv(-0.5 * self._c1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSUSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub a0: Dp,
    #[use_state]
    /// a component
    pub _c1: Nd,
    #[save_state]
    pub r#match: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSUSL1, [a0, _c1, r#match], [Save, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.r#type.step_deriv(-0.5 * self.r#type.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSUSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub __p0: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub r#type: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub solver_type2: Nd,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSUSL2, [__p0, r#type, solver_type2], [Save, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.solver_type1.step_deriv(-0.5 * self.solver_type1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSUNL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub r#in: Gr,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub solver_type1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub new2: Gr,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSUNL2, [r#in, solver_type1, new2], [Save, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSUNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Dp,
    #[use_state]
    pub c1: Nd,
    /// a component
    pub c2: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSUNL0, [c0, c1, c2], [Save, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSSUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Sv,
    #[save_state]
    pub c1: Gr,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSSUL0, [c0, c1, c2], [Save, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.größe2.step_deriv(-0.5 * self.größe2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSSUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub r#in: Gr,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    #[use_state]
    pub größe2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSSUL1, [r#in, Cap1, größe2], [Save, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSSSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub Cap0: Nd,
    #[save_state]
    /// a component
    pub größe1: Dp,
    #[save_state]
    pub state_2: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSSSL1, [Cap0, größe1, state_2], [Save, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSSSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub new0: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub tank1_history: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub b97_state: Gr,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSSSL2, [new0, tank1_history, b97_state], [Save, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSSNL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub tank0_history: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub b98_state: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub t_report_2: Ov,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSSNL2, [tank0_history, b98_state, t_report_2], [Save, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSSNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Nd,
    #[save_state]
    pub c1: Dp,
    /// a component
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSSNL0, [c0, c1, c2], [Save, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSNUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Dp,
    pub c1: Nd,
    /// a component
    #[use_state]
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSNUL0, [c0, c1, c2], [Save, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.history_2.step_deriv(-0.5 * self.history_2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSNUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub state_0: Sv,
    /// a component
    pub z98: Sv,
    #[use_state]
    pub history_2: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSNUL1, [state_0, z98, history_2], [Save, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YSNSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub z99: Gr,
    /// a component
    pub history_1: Ov,
    #[save_state]
    pub a2: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YSNSL1, [z99, history_1, a2], [Save, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSNSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub t_report_0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub y98: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub __p2: Sv,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSNSL2, [t_report_0, y98, __p2], [Save, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YSNNL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub y99: Dp,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub __p1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub r#match: Sv,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YSNNL2, [y99, __p1, r#match], [Save, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YSNNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Gr,
    pub c1: Ov,
    /// a component
    pub c2: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YSNNL0, [c0, c1, c2], [Save, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.2 * self.par);
        self.c1.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[use_state]
    pub c1: Nd,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNUUL0, [c0, c1, c2], [No, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self._c1.step_deriv(-0.5 * self._c1.state() + 0.125 * t + 0.1 * self.par);
        self.r#match.step_deriv(-0.5 * self.r#match.state() + 0.125 * t + 0.2 * self.par);
        self._c1.step_deriv(0.25 * self.r#match.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub a0: Gr,
    #[use_state]
    /// a component
    pub _c1: Nd,
    #[use_state]
    pub r#match: Ov,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNUUL1, [a0, _c1, r#match], [No, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.r#type.step_deriv(-0.5 * self.r#type.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNUSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub _c0: Nd,
    #[use_state]
    /// a component
    pub r#type: Ov,
    #[save_state]
    pub Cap2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNUSL1, [_c0, r#type, Cap2], [No, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.solver_type1.step_deriv(-0.5 * self.solver_type1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNUSL2 {
    pub state: SystemState,
    /// a component
    pub r#in: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub solver_type1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub new2: Dp,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNUSL2, [r#in, solver_type1, new2], [No, Use, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.new1.step_deriv(-0.5 * self.new1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNUNL2 {
    pub state: SystemState,
    /// a component
    pub solver_type0: Ov,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    pub new1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub tank2_history: Nd,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNUNL2, [solver_type0, new1, tank2_history], [No, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNUNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    /// a component
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNUNL0, [c0, c1, c2], [No, Use, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNSUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Sv,
    #[save_state]
    pub c1: Nd,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNSUL0, [c0, c1, c2], [No, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.state_2.step_deriv(-0.5 * self.state_2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNSUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub Cap0: Ov,
    #[save_state]
    /// a component
    pub größe1: Dp,
    #[use_state]
    pub state_2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNSUL1, [Cap0, größe1, state_2], [No, Save, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNSSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub größe0: Gr,
    #[save_state]
    /// a component
    pub state_1: Sv,
    #[save_state]
    pub z97: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNSSL1, [größe0, state_1, z97], [No, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNSSL2 {
    pub state: SystemState,
    /// a component
    pub tank0_history: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub b98_state: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub t_report_2: Nd,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNSSL2, [tank0_history, b98_state, t_report_2], [No, Save, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNSNL2 {
    pub state: SystemState,
    /// a component
    pub b99_state: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub t_report_1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub y97: Gr,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNSNL2, [b99_state, t_report_1, y97], [No, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNSNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Gr,
    #[save_state]
    pub c1: Sv,
    /// a component
    pub c2: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNSNL0, [c0, c1, c2], [No, Save, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNNUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Nd,
    pub c1: Sv,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNNUL0, [c0, c1, c2], [No, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.a2.step_deriv(-0.5 * self.a2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNNUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub z99: Sv,
    /// a component
    pub history_1: Ov,
    #[use_state]
    pub a2: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNNUL1, [z99, history_1, a2], [No, No, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct YNNSL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub history_0: Ov,
    /// a component
    pub a1: Gr,
    #[save_state]
    pub _c2: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(YNNSL1, [history_0, a1, _c2], [No, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNNSL2 {
    pub state: SystemState,
    /// a component
    pub y99: Gr,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub __p1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub r#match: Gr,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNNSL2, [y99, __p1, r#match], [No, No, Save], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct YNNNL2 {
    pub state: SystemState,
    /// a component
    pub __p0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub r#type: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub solver_type2: Ov,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(YNNNL2, [__p0, r#type, solver_type2], [No, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct YNNNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    pub c1: Gr,
    /// a component
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(YNNNL0, [c0, c1, c2], [No, No, No], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ZBL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    #[save_state]
    pub c0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(ZBL0, [c0], [Both], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.z99.step_deriv(-0.5 * self.z99.state() + 0.125 * t + 0.1 * self.par);
        self.history_1.step_deriv(-0.5 * self.history_1.state() + 0.125 * t + 0.2 * self.par);
        self.z99.step_deriv(0.25 * self.history_1.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct ZBUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    #[save_state]
    pub z99: Ov,
    #[use_state]
    /// a component
    pub history_1: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(ZBUL1, [z99, history_1], [Both, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.y98.step_deriv(-0.5 * self.y98.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct ZSBL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub t_report_0: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[use_state]
    #[save_state]
    pub y98: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub history: SystemStateHistoryVec,
    #[skip_get]
    pub solver_type: SolverTypes,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(ZSBL2, [t_report_0, y98], [Save, Both], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.2 * self.par);
        self.c0.step_deriv(0.25 * self.c2.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ZUNBL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    pub c1: Nd,
    /// a component
    #[use_state]
    #[save_state]
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(ZUNBL0, [c0, c1, c2], [Use, No, Both], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self._c0.step_deriv(-0.5 * self._c0.state() + 0.125 * t + 0.1 * self.par);
        self.r#type.step_deriv(-0.5 * self.r#type.state() + 0.125 * t + 0.2 * self.par);
        self.Cap2.step_deriv(-0.5 * self.Cap2.state() + 0.125 * t + 0.3 * self.par);
        self.größe3.step_deriv(-0.5 * self.größe3.state() + 0.125 * t + 0.4 * self.par);
        self._c0.step_deriv(0.25 * self.r#type.state());
        self.r#type.step_deriv(0.25 * self.Cap2.state());
        self.Cap2.step_deriv(0.25 * self.größe3.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct ZUUUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub _c0: Nd,
    #[use_state]
    /// a component
    pub r#type: Ov,
    #[use_state]
    pub Cap2: Dp,
    #[use_state]
    /// a component
    pub größe3: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(ZUUUUL1, [_c0, r#type, Cap2, größe3], [Use, Use, Use, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.r#in.step_deriv(-0.5 * self.r#in.state() + 0.125 * t + 0.1 * self.par);
        self.new2.step_deriv(-0.5 * self.new2.state() + 0.125 * t + 0.2 * self.par);
        self.b95_state.step_deriv(-0.5 * self.b95_state.state() + 0.125 * t + 0.3 * self.par);
        self.r#in.step_deriv(0.25 * self.new2.state());
        self.new2.step_deriv(0.25 * self.b95_state.state());
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct ZUSUNUL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub r#in: Ov,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub solver_type1: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub new2: Nd,
    pub history: SystemStateHistoryVec,
    pub tank3_history: Nd,
    #[skip_get]
    pub solver_type: SolverTypes,
    /// a component
    #[use_state]
    pub b95_state: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(ZUSUNUL2, [r#in, solver_type1, new2, tank3_history, b95_state], [Use, Save, Use, No, Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.1 * self.par);
        self.c4.step_deriv(-0.5 * self.c4.state() + 0.125 * t + 0.2 * self.par);
        self.c5.step_deriv(-0.5 * self.c5.state() + 0.125 * t + 0.3 * self.par);
        self.c1.step_deriv(0.25 * self.c4.state());
        self.c4.step_deriv(0.25 * self.c5.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ZNUSSUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[use_state]
    pub c1: Nd,
    /// a component
    #[save_state]
    pub c2: Sv,
    #[save_state]
    pub c3: Gr,
    /// a component
    #[use_state]
    pub c4: Dp,
    #[use_state]
    pub c5: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(ZNUSSUUL0, [c0, c1, c2, c3, c4, c5], [No, Use, Save, Save, Use, Use], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.größe0.step_deriv(-0.5 * self.größe0.state() + 0.125 * t + 0.1 * self.par);
        self.state_1.step_deriv(-0.5 * self.state_1.state() + 0.125 * t + 0.2 * self.par);
        self.z97.step_deriv(-0.5 * self.z97.state() + 0.125 * t + 0.3 * self.par);
        self.history_3.step_deriv(-0.5 * self.history_3.state() + 0.125 * t + 0.4 * self.par);
        self.a4.step_deriv(-0.5 * self.a4.state() + 0.125 * t + 0.5 * self.par);
        self._c5.step_deriv(-0.5 * self._c5.state() + 0.125 * t + 0.6 * self.par);
        self.r#where.step_deriv(-0.5 * self.r#where.state() + 0.125 * t + 0.7 * self.par);
        self.Cap7.step_deriv(-0.5 * self.Cap7.state() + 0.125 * t + 0.8 * self.par);
        self.größe0.step_deriv(0.25 * self.state_1.state());
        self.state_1.step_deriv(0.25 * self.z97.state());
        self.z97.step_deriv(0.25 * self.history_3.state());
        self.history_3.step_deriv(0.25 * self.a4.state());
        self.a4.step_deriv(0.25 * self._c5.state());
        self._c5.step_deriv(0.25 * self.r#where.state());
        self.r#where.step_deriv(0.25 * self.Cap7.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct ZUUUUUUUUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub größe0: Nd,
    #[use_state]
    /// a component
    pub state_1: Nd,
    #[use_state]
    pub z97: Ov,
    #[use_state]
    /// a component
    pub history_3: Dp,
    #[use_state]
    pub a4: Nd,
    #[use_state]
    /// a component
    pub _c5: Nd,
    #[use_state]
    pub r#where: Ov,
    #[use_state]
    /// a component
    pub Cap7: Dp,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(ZUUUUUUUUL1, [größe0, state_1, z97, history_3, a4, _c5, r#where, Cap7], [Use, Use, Use, Use, Use, Use, Use, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct ZSSSSSL2 {
    pub state: SystemState,
    /// a component
    #[save_state]
    pub tank0_history: Sv,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub b98_state: Gr,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub t_report_2: Nd,
    pub history: SystemStateHistoryVec,
    #[save_state]
    pub y96: Dp,
    #[skip_get]
    pub solver_type: SolverTypes,
    /// a component
    #[save_state]
    pub __p4: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(ZSSSSSL2, [tank0_history, b98_state, t_report_2, y96, __p4], [Save, Save, Save, Save, Save], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.1 * self.par);
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ZNNUNL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Sv,
    pub c1: Ov,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub c3: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(ZNNUNL0, [c0, c1, c2, c3], [No, No, Use, No], sys=true);

#[common_derives]
#[derive(Default)]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.history_0.step_deriv(-0.5 * self.history_0.state() + 0.125 * t + 0.1 * self.par);
        self.r#loop.step_deriv(-0.5 * self.r#loop.state() + 0.125 * t + 0.2 * self.par);
        self.state_6.step_deriv(-0.5 * self.state_6.state() + 0.125 * t + 0.3 * self.par);
        self.a9.step_deriv(-0.5 * self.a9.state() + 0.125 * t + 0.4 * self.par);
        self.history_0.step_deriv(0.25 * self.r#loop.state());
        self.r#loop.step_deriv(0.25 * self.state_6.state());
        self.state_6.step_deriv(0.25 * self.a9.state());
    }
)]
#[derive(BareClone, HistoryMethods)]
pub struct ZUNSUNSUNSUL1 {
    pub history: SystemStateHistoryVec,
    pub state: SystemState,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[use_state]
    pub history_0: Dp,
    /// a component
    pub a1: Gr,
    #[save_state]
    pub _c2: Sv,
    #[use_state]
    /// a component
    pub r#loop: Ov,
    pub Cap4: Ov,
    #[save_state]
    /// a component
    pub größe5: Dp,
    #[use_state]
    pub state_6: Nd,
    /// a component
    pub z92: Sv,
    #[save_state]
    pub history_8: Nd,
    #[use_state]
    /// a component
    pub a9: Nd,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub solver_type: SolverTypes,
}

shape!(ZUNSUNSUNSUL1, [history_0, a1, _c2, r#loop, Cap4, größe5, state_6, z92, history_8, a9], [Use, No, Save, Use, No, Save, Use, No, Save, Use], sys=true);

#[derive(HistoryMethods)]
#[pyo3_api]
#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.y99.step_deriv(-0.5 * self.y99.state() + 0.125 * t + 0.1 * self.par);
        self.solver_type3.step_deriv(-0.5 * self.solver_type3.state() + 0.125 * t + 0.2 * self.par);
        self.new4.step_deriv(-0.5 * self.new4.state() + 0.125 * t + 0.3 * self.par);
        self.t_report_7.step_deriv(-0.5 * self.t_report_7.state() + 0.125 * t + 0.4 * self.par);
        self.y91.step_deriv(-0.5 * self.y91.state() + 0.125 * t + 0.5 * self.par);
        self.solver_type11.step_deriv(-0.5 * self.solver_type11.state() + 0.125 * t + 0.6 * self.par);
        self.new12.step_deriv(-0.5 * self.new12.state() + 0.125 * t + 0.7 * self.par);
        self.t_report_15.step_deriv(-0.5 * self.t_report_15.state() + 0.125 * t + 0.8 * self.par);
        self.y83.step_deriv(-0.5 * self.y83.state() + 0.125 * t + 0.9 * self.par);
        self.solver_type19.step_deriv(-0.5 * self.solver_type19.state() + 0.125 * t + 1.0 * self.par);
        self.y99.step_deriv(0.25 * self.solver_type3.state());
        self.solver_type3.step_deriv(0.25 * self.new4.state());
        self.new4.step_deriv(0.25 * self.t_report_7.state());
        self.t_report_7.step_deriv(0.25 * self.y91.state());
        self.y91.step_deriv(0.25 * self.solver_type11.state());
        self.solver_type11.step_deriv(0.25 * self.new12.state());
        self.new12.step_deriv(0.25 * self.t_report_15.state());
        self.t_report_15.step_deriv(0.25 * self.y83.state());
        self.y83.step_deriv(0.25 * self.solver_type19.state());
    }
)]
#[derive(Default, BareClone)]
#[common_derives]
pub struct ZUSNUUSNUUSNUUSNUUSNUL2 {
    pub state: SystemState,
    /// a component
    #[use_state]
    pub y99: Nd,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    #[save_state]
    pub __p1: Sv,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub r#match: Sv,
    pub history: SystemStateHistoryVec,
    #[use_state]
    pub solver_type3: Dp,
    #[skip_get]
    pub solver_type: SolverTypes,
    /// a component
    #[use_state]
    pub new4: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    #[save_state]
    pub tank5_history: Sv,
    /// a component
    pub b93_state: Sv,
    #[use_state]
    pub t_report_7: Dp,
    /// a component
    #[use_state]
    pub y91: Nd,
    #[save_state]
    pub __p9: Sv,
    /// a component
    pub r#as: Sv,
    #[use_state]
    pub solver_type11: Dp,
    /// a component
    #[use_state]
    pub new12: Nd,
    #[save_state]
    pub tank13_history: Sv,
    /// a component
    pub b85_state: Sv,
    #[use_state]
    pub t_report_15: Dp,
    /// a component
    #[use_state]
    pub y83: Nd,
    #[save_state]
    pub __p17: Sv,
    /// a component
    pub r#raw18: Sv,
    #[use_state]
    pub solver_type19: Dp,
}

shape!(ZUSNUUSNUUSNUUSNUUSNUL2, [y99, __p1, r#match, solver_type3, new4, tank5_history, b93_state, t_report_7, y91, __p9, r#as, solver_type11, new12, tank13_history, b85_state, t_report_15, y83, __p17, r#raw18, solver_type19], [Use, Save, No, Use, Use, Save, No, Use, Use, Save, No, Use, Use, Save, No, Use, Use, Save, No, Use], sys=true);

#[solver(
    fn update_derivs(&mut self) {
        self.reset_derivs();
        let t = self.state.time;
        self.c0.step_deriv(-0.5 * self.c0.state() + 0.125 * t + 0.1 * self.par);
        self.c1.step_deriv(-0.5 * self.c1.state() + 0.125 * t + 0.2 * self.par);
        self.c2.step_deriv(-0.5 * self.c2.state() + 0.125 * t + 0.3 * self.par);
        self.c3.step_deriv(-0.5 * self.c3.state() + 0.125 * t + 0.4 * self.par);
        self.c4.step_deriv(-0.5 * self.c4.state() + 0.125 * t + 0.5 * self.par);
        self.c5.step_deriv(-0.5 * self.c5.state() + 0.125 * t + 0.6 * self.par);
        self.c6.step_deriv(-0.5 * self.c6.state() + 0.125 * t + 0.7 * self.par);
        self.c7.step_deriv(-0.5 * self.c7.state() + 0.125 * t + 0.8 * self.par);
        self.c8.step_deriv(-0.5 * self.c8.state() + 0.125 * t + 0.9 * self.par);
        self.c9.step_deriv(-0.5 * self.c9.state() + 0.125 * t + 1.0 * self.par);
        self.c10.step_deriv(-0.5 * self.c10.state() + 0.125 * t + 1.1 * self.par);
        self.c11.step_deriv(-0.5 * self.c11.state() + 0.125 * t + 1.2 * self.par);
        self.c12.step_deriv(-0.5 * self.c12.state() + 0.125 * t + 1.3 * self.par);
        self.c13.step_deriv(-0.5 * self.c13.state() + 0.125 * t + 1.4 * self.par);
        self.c14.step_deriv(-0.5 * self.c14.state() + 0.125 * t + 1.5 * self.par);
        self.c15.step_deriv(-0.5 * self.c15.state() + 0.125 * t + 1.6 * self.par);
        self.c16.step_deriv(-0.5 * self.c16.state() + 0.125 * t + 1.7 * self.par);
        self.c17.step_deriv(-0.5 * self.c17.state() + 0.125 * t + 1.8 * self.par);
        self.c18.step_deriv(-0.5 * self.c18.state() + 0.125 * t + 1.9 * self.par);
        self.c19.step_deriv(-0.5 * self.c19.state() + 0.125 * t + 2.0 * self.par);
        self.c20.step_deriv(-0.5 * self.c20.state() + 0.125 * t + 2.1 * self.par);
        self.c21.step_deriv(-0.5 * self.c21.state() + 0.125 * t + 2.2 * self.par);
        self.c22.step_deriv(-0.5 * self.c22.state() + 0.125 * t + 2.3 * self.par);
        self.c23.step_deriv(-0.5 * self.c23.state() + 0.125 * t + 2.4 * self.par);
        self.c24.step_deriv(-0.5 * self.c24.state() + 0.125 * t + 2.5 * self.par);
        self.c25.step_deriv(-0.5 * self.c25.state() + 0.125 * t + 2.6 * self.par);
        self.c26.step_deriv(-0.5 * self.c26.state() + 0.125 * t + 2.7 * self.par);
        self.c27.step_deriv(-0.5 * self.c27.state() + 0.125 * t + 2.8 * self.par);
        self.c28.step_deriv(-0.5 * self.c28.state() + 0.125 * t + 2.9 * self.par);
        self.c29.step_deriv(-0.5 * self.c29.state() + 0.125 * t + 3.0 * self.par);
        self.c30.step_deriv(-0.5 * self.c30.state() + 0.125 * t + 3.1 * self.par);
        self.c31.step_deriv(-0.5 * self.c31.state() + 0.125 * t + 3.2 * self.par);
        self.c32.step_deriv(-0.5 * self.c32.state() + 0.125 * t + 3.3 * self.par);
        self.c33.step_deriv(-0.5 * self.c33.state() + 0.125 * t + 3.4 * self.par);
        self.c0.step_deriv(0.25 * self.c1.state());
        self.c1.step_deriv(0.25 * self.c2.state());
        self.c2.step_deriv(0.25 * self.c3.state());
        self.c3.step_deriv(0.25 * self.c4.state());
        self.c4.step_deriv(0.25 * self.c5.state());
        self.c5.step_deriv(0.25 * self.c6.state());
        self.c6.step_deriv(0.25 * self.c7.state());
        self.c7.step_deriv(0.25 * self.c8.state());
        self.c8.step_deriv(0.25 * self.c9.state());
        self.c9.step_deriv(0.25 * self.c10.state());
        self.c10.step_deriv(0.25 * self.c11.state());
        self.c11.step_deriv(0.25 * self.c12.state());
        self.c12.step_deriv(0.25 * self.c13.state());
        self.c13.step_deriv(0.25 * self.c14.state());
        self.c14.step_deriv(0.25 * self.c15.state());
        self.c15.step_deriv(0.25 * self.c16.state());
        self.c16.step_deriv(0.25 * self.c17.state());
        self.c17.step_deriv(0.25 * self.c18.state());
        self.c18.step_deriv(0.25 * self.c19.state());
        self.c19.step_deriv(0.25 * self.c20.state());
        self.c20.step_deriv(0.25 * self.c21.state());
        self.c21.step_deriv(0.25 * self.c22.state());
        self.c22.step_deriv(0.25 * self.c23.state());
        self.c23.step_deriv(0.25 * self.c24.state());
        self.c24.step_deriv(0.25 * self.c25.state());
        self.c25.step_deriv(0.25 * self.c26.state());
        self.c26.step_deriv(0.25 * self.c27.state());
        self.c27.step_deriv(0.25 * self.c28.state());
        self.c28.step_deriv(0.25 * self.c29.state());
        self.c29.step_deriv(0.25 * self.c30.state());
        self.c30.step_deriv(0.25 * self.c31.state());
        self.c31.step_deriv(0.25 * self.c32.state());
        self.c32.step_deriv(0.25 * self.c33.state());
    }
)]
#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct ZUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUL0 {
    pub solver_type: SolverTypes,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    /// a component
    #[use_state]
    pub c2: Dp,
    #[use_state]
    pub c3: Nd,
    /// a component
    #[use_state]
    pub c4: Nd,
    #[use_state]
    pub c5: Ov,
    /// a component
    #[use_state]
    pub c6: Dp,
    #[use_state]
    pub c7: Nd,
    /// a component
    #[use_state]
    pub c8: Nd,
    #[use_state]
    pub c9: Ov,
    /// a component
    #[use_state]
    pub c10: Dp,
    #[use_state]
    pub c11: Nd,
    /// a component
    #[use_state]
    pub c12: Nd,
    #[use_state]
    pub c13: Ov,
    /// a component
    #[use_state]
    pub c14: Dp,
    #[use_state]
    pub c15: Nd,
    /// a component
    #[use_state]
    pub c16: Nd,
    #[use_state]
    pub c17: Ov,
    /// a component
    #[use_state]
    pub c18: Dp,
    #[use_state]
    pub c19: Nd,
    /// a component
    #[use_state]
    pub c20: Nd,
    #[use_state]
    pub c21: Ov,
    /// a component
    #[use_state]
    pub c22: Dp,
    #[use_state]
    pub c23: Nd,
    /// a component
    #[use_state]
    pub c24: Nd,
    #[use_state]
    pub c25: Ov,
    /// a component
    #[use_state]
    pub c26: Dp,
    #[use_state]
    pub c27: Nd,
    /// a component
    #[use_state]
    pub c28: Nd,
    #[use_state]
    pub c29: Ov,
    /// a component
    #[use_state]
    pub c30: Dp,
    #[use_state]
    pub c31: Nd,
    /// a component
    #[use_state]
    pub c32: Nd,
    #[use_state]
    pub c33: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub boxed: Option<Box<f64>>,
    pub t_report: Vec<f64>,
    /// nested
    nested: Vec<Vec<f64>>,
    pub time: f64,
    pub i: usize,
    pub state: SystemState,
    pub history: SystemStateHistoryVec,
}

shape!(ZUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUL0, [c0, c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23, c24, c25, c26, c27, c28, c29, c30, c31, c32, c33], [Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use, Use], sys=true);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GU, [c0], [Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GS {
    #[save_state]
    pub z99: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
}

shape!(GS, [z99], [Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUU, [c0, c1], [Use, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUS {
    #[use_state]
    pub z99: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub history_1: Nd,
}

shape!(GUS, [z99, history_1], [Use, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUN {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    pub c1: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUN, [c0, c1], [Use, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSU {
    #[save_state]
    pub a0: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub _c1: Nd,
}

shape!(GSU, [a0, _c1], [Save, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Sv,
    #[save_state]
    pub c1: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GSS, [c0, c1], [Save, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSN {
    #[save_state]
    pub r#in: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub Cap1: Ov,
}

shape!(GSN, [r#in, Cap1], [Save, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[use_state]
    pub c1: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GNU, [c0, c1], [No, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNS {
    pub größe0: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub state_1: Sv,
}

shape!(GNS, [größe0, state_1], [No, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUUU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUUU, [c0, c1, c2], [Use, Use, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUUS {
    #[use_state]
    pub z99: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub history_1: Dp,
    #[save_state]
    pub a2: Dp,
}

shape!(GUUS, [z99, history_1, a2], [Use, Use, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUUN {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    #[use_state]
    pub c1: Nd,
    /// a component
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUUN, [c0, c1, c2], [Use, Use, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUSU {
    #[use_state]
    pub a0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub _c1: Sv,
    #[use_state]
    pub r#match: Ov,
}

shape!(GUSU, [a0, _c1, r#match], [Use, Save, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUSS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    #[save_state]
    pub c1: Gr,
    /// a component
    #[save_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUSS, [c0, c1, c2], [Use, Save, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUSN {
    #[use_state]
    pub r#in: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    pub größe2: Gr,
}

shape!(GUSN, [r#in, Cap1, größe2], [Use, Save, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUNU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Dp,
    pub c1: Gr,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUNU, [c0, c1, c2], [Use, No, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUNS {
    #[use_state]
    pub größe0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub state_1: Nd,
    #[save_state]
    pub z97: Gr,
}

shape!(GUNS, [größe0, state_1, z97], [Use, No, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GUNN {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    pub c0: Nd,
    pub c1: Sv,
    /// a component
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GUNN, [c0, c1, c2], [Use, No, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSUU {
    #[save_state]
    pub z99: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub history_1: Dp,
    #[use_state]
    pub a2: Nd,
}

shape!(GSUU, [z99, history_1, a2], [Save, Use, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSUS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Nd,
    #[use_state]
    pub c1: Nd,
    /// a component
    #[save_state]
    pub c2: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GSUS, [c0, c1, c2], [Save, Use, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSUN {
    #[save_state]
    pub a0: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub _c1: Nd,
    pub r#match: Sv,
}

shape!(GSUN, [a0, _c1, r#match], [Save, Use, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSSU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Sv,
    #[save_state]
    pub c1: Gr,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GSSU, [c0, c1, c2], [Save, Save, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSSS {
    #[save_state]
    pub r#in: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    #[save_state]
    pub größe2: Dp,
}

shape!(GSSS, [r#in, Cap1, größe2], [Save, Save, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSSN {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Nd,
    #[save_state]
    pub c1: Dp,
    /// a component
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GSSN, [c0, c1, c2], [Save, Save, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSNU {
    #[save_state]
    pub größe0: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub state_1: Nd,
    #[use_state]
    pub z97: Ov,
}

shape!(GSNU, [größe0, state_1, z97], [Save, No, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSNS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Sv,
    pub c1: Sv,
    /// a component
    #[save_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GSNS, [c0, c1, c2], [Save, No, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GSNN {
    #[save_state]
    pub z99: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub history_1: Ov,
    pub a2: Gr,
}

shape!(GSNN, [z99, history_1, a2], [Save, No, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNUU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[use_state]
    pub c1: Nd,
    /// a component
    #[use_state]
    pub c2: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GNUU, [c0, c1, c2], [No, Use, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNUS {
    pub a0: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub _c1: Nd,
    #[save_state]
    pub r#match: Gr,
}

shape!(GNUS, [a0, _c1, r#match], [No, Use, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNUN {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Nd,
    #[use_state]
    pub c1: Ov,
    /// a component
    pub c2: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GNUN, [c0, c1, c2], [No, Use, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNSU {
    pub r#in: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub Cap1: Nd,
    #[use_state]
    pub größe2: Nd,
}

shape!(GNSU, [r#in, Cap1, größe2], [No, Save, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNSS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Ov,
    #[save_state]
    pub c1: Dp,
    /// a component
    #[save_state]
    pub c2: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GNSS, [c0, c1, c2], [No, Save, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNSN {
    pub größe0: Gr,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[save_state]
    /// a component
    pub state_1: Sv,
    pub z97: Sv,
}

shape!(GNSN, [größe0, state_1, z97], [No, Save, No], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNNU {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub c0: Nd,
    pub c1: Sv,
    /// a component
    #[use_state]
    pub c2: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(GNNU, [c0, c1, c2], [No, No, Use], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct GNNS {
    pub z99: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub history_1: Ov,
    #[save_state]
    pub a2: Dp,
}

shape!(GNNS, [z99, history_1, a2], [No, No, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct HB {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[use_state]
    #[save_state]
    pub c0: Ov,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(HB, [c0], [Both], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct HBNS {
    #[use_state]
    #[save_state]
    pub history_0: Dp,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    pub a1: Gr,
    #[save_state]
    pub _c2: Sv,
}

shape!(HBNS, [history_0, a1, _c2], [Both, No, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct HSSSSSS {
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    /// a component
    #[save_state]
    pub c0: Dp,
    #[save_state]
    pub c1: Sv,
    /// a component
    #[save_state]
    pub c2: Gr,
    #[save_state]
    pub c3: Nd,
    /// a component
    #[save_state]
    pub c4: Dp,
    #[save_state]
    pub c5: Sv,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
}

shape!(HSSSSSS, [c0, c1, c2, c3, c4, c5], [Save, Save, Save, Save, Save, Save], sys=false);

#[derive(HistoryMethods, BareClone, Default)]
#[common_derives]
pub struct HNUNSN {
    pub _c0: Nd,
    pub tag: String,
    pub old_history: Vec<f64>,
    pub state_note: f64,
    #[serde(default)]
    pub pair: (f64, bool),
    pub(crate) arr: [f64; 3],
    #[serde(skip)]
    pub cached: f64,
    pub dt: f64,
    pub spare_state: St,
    pub map: std::collections::BTreeMap<String, f64>,
    pub r#in_use: u8,
    pub par: f64,
    pub history_kept: bool,
    pub _hidden: f64,
    pub r#yield: Vec<f64>,
    pub opt: Option<f64>,
    #[use_state]
    /// a component
    pub r#type: Ov,
    pub Cap2: Ov,
    #[save_state]
    /// a component
    pub größe3: Dp,
    pub state_4: Nd,
}

shape!(HNUNSN, [_c0, r#type, Cap2, größe3, state_4], [No, Use, No, Save, No], sys=false);

pub fn systems() -> Vec<fn() -> Box<dyn Shape>> {
    vec![|| Box::new(YL0::default()), || Box::new(YL1::default()), || Box::new(YL2::default()), || Box::new(YUL0::default()), || Box::new(YUL1::default()), || Box::new(YUL2::default()), || Box::new(YSL0::default()), || Box::new(YSL1::default()), || Box::new(YSL2::default()), || Box::new(YNL0::default()), || Box::new(YNL1::default()), || Box::new(YNL2::default()), || Box::new(YUUL0::default()), || Box::new(YUUL1::default()), || Box::new(YUUL2::default()), || Box::new(YUSL0::default()), || Box::new(YUSL1::default()), || Box::new(YUSL2::default()), || Box::new(YUNL0::default()), || Box::new(YUNL1::default()), || Box::new(YUNL2::default()), || Box::new(YSUL0::default()), || Box::new(YSUL1::default()), || Box::new(YSUL2::default()), || Box::new(YSSL0::default()), || Box::new(YSSL1::default()), || Box::new(YSSL2::default()), || Box::new(YSNL0::default()), || Box::new(YSNL1::default()), || Box::new(YSNL2::default()), || Box::new(YNUL0::default()), || Box::new(YNUL1::default()), || Box::new(YNUL2::default()), || Box::new(YNSL0::default()), || Box::new(YNSL1::default()), || Box::new(YNSL2::default()), || Box::new(YNNL0::default()), || Box::new(YNNL1::default()), || Box::new(YNNL2::default()), || Box::new(YUUUL0::default()), || Box::new(YUUUL1::default()), || Box::new(YUUSL1::default()), || Box::new(YUUSL2::default()), || Box::new(YUUNL2::default()), || Box::new(YUUNL0::default()), || Box::new(YUSUL0::default()), || Box::new(YUSUL1::default()), || Box::new(YUSSL1::default()), || Box::new(YUSSL2::default()), || Box::new(YUSNL2::default()), || Box::new(YUSNL0::default()), || Box::new(YUNUL0::default()), || Box::new(YUNUL1::default()), || Box::new(YUNSL1::default()), || Box::new(YUNSL2::default()), || Box::new(YUNNL2::default()), || Box::new(YUNNL0::default()), || Box::new(YSUUL0::default()), || Box::new(YSUUL1::default()), || Box::new(YSUSL1::default()), || Box::new(YSUSL2::default()), || Box::new(YSUNL2::default()), || Box::new(YSUNL0::default()), || Box::new(YSSUL0::default()), || Box::new(YSSUL1::default()), || Box::new(YSSSL1::default()), || Box::new(YSSSL2::default()), || Box::new(YSSNL2::default()), || Box::new(YSSNL0::default()), || Box::new(YSNUL0::default()), || Box::new(YSNUL1::default()), || Box::new(YSNSL1::default()), || Box::new(YSNSL2::default()), || Box::new(YSNNL2::default()), || Box::new(YSNNL0::default()), || Box::new(YNUUL0::default()), || Box::new(YNUUL1::default()), || Box::new(YNUSL1::default()), || Box::new(YNUSL2::default()), || Box::new(YNUNL2::default()), || Box::new(YNUNL0::default()), || Box::new(YNSUL0::default()), || Box::new(YNSUL1::default()), || Box::new(YNSSL1::default()), || Box::new(YNSSL2::default()), || Box::new(YNSNL2::default()), || Box::new(YNSNL0::default()), || Box::new(YNNUL0::default()), || Box::new(YNNUL1::default()), || Box::new(YNNSL1::default()), || Box::new(YNNSL2::default()), || Box::new(YNNNL2::default()), || Box::new(YNNNL0::default()), || Box::new(ZBL0::default()), || Box::new(ZBUL1::default()), || Box::new(ZSBL2::default()), || Box::new(ZUNBL0::default()), || Box::new(ZUUUUL1::default()), || Box::new(ZUSUNUL2::default()), || Box::new(ZNUSSUUL0::default()), || Box::new(ZUUUUUUUUL1::default()), || Box::new(ZSSSSSL2::default()), || Box::new(ZNNUNL0::default()), || Box::new(ZUNSUNSUNSUL1::default()), || Box::new(ZUSNUUSNUUSNUUSNUUSNUL2::default()), || Box::new(ZUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUUL0::default())]
}

pub fn groups() -> Vec<fn() -> Box<dyn Shape>> {
    vec![|| Box::new(GU::default()), || Box::new(GS::default()), || Box::new(GUU::default()), || Box::new(GUS::default()), || Box::new(GUN::default()), || Box::new(GSU::default()), || Box::new(GSS::default()), || Box::new(GSN::default()), || Box::new(GNU::default()), || Box::new(GNS::default()), || Box::new(GUUU::default()), || Box::new(GUUS::default()), || Box::new(GUUN::default()), || Box::new(GUSU::default()), || Box::new(GUSS::default()), || Box::new(GUSN::default()), || Box::new(GUNU::default()), || Box::new(GUNS::default()), || Box::new(GUNN::default()), || Box::new(GSUU::default()), || Box::new(GSUS::default()), || Box::new(GSUN::default()), || Box::new(GSSU::default()), || Box::new(GSSS::default()), || Box::new(GSSN::default()), || Box::new(GSNU::default()), || Box::new(GSNS::default()), || Box::new(GSNN::default()), || Box::new(GNUU::default()), || Box::new(GNUS::default()), || Box::new(GNUN::default()), || Box::new(GNSU::default()), || Box::new(GNSS::default()), || Box::new(GNSN::default()), || Box::new(GNNU::default()), || Box::new(GNNS::default()), || Box::new(HB::default()), || Box::new(HBNS::default()), || Box::new(HSSSSSS::default()), || Box::new(HNUNSN::default())]
}
