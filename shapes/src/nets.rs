//! The components of the connection networks.
use crate::comps::{Nd, Ov};
use dess::prelude::*;
use dess_examples::components::*;

pub struct Net {
    pub a: ThermalMass,
    pub b: ThermalMass,
    pub c: ThermalMass,
    pub r: ThermalReservoir,
    pub q0: Conductance,
    pub q1: Conductance,
    pub q2: Conductance,
    pub q3: Conductance,
    pub q4: Conductance,
    pub q5: Conductance,
    pub q6: Conductance,
    pub q7: Conductance,
    pub q8: Conductance,
    pub q9: Conductance,
    pub q10: Conductance,
    pub q11: Conductance,
    pub q12: Conductance,
    pub q13: Conductance,
}

/// a connection with a law of its own: flow by the difference of squares
#[derive(Default)]
pub struct Valve {
    pub h: f64,
    pub q: f64,
}
impl Flow for Valve {
    fn flow(&self) -> f64 {
        self.q
    }
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        self.q = self.h * (p0.state() * p0.state() - p1.state() * p1.state());
    }
}
/// one-way connection
#[derive(Default)]
pub struct Check {
    pub h: f64,
    pub q: f64,
}
impl Flow for Check {
    fn flow(&self) -> f64 {
        2.0 * self.q
    }
    fn set_flow(&mut self, p0: &dyn HasState, p1: &dyn HasState) {
        self.q = (self.h * (p0.state() - p1.state())).max(0.0);
    }
}
/// components and connections of other kinds
#[derive(Default)]
pub struct Net2 {
    pub a: Nd,
    pub b: Ov,
    pub c: ThermalMass,
    pub r: ThermalReservoir,
    pub v: Valve,
    pub w: Check,
    pub x: Conductance,
    pub y: Check,
    pub z: Valve,
}
pub type F2 = (fn(&mut Net2), &'static [(usize, usize, usize)]);
macro_rules! net2 {
    ($($n:ident [$(($x:ident, $y:ident, $q:ident)),+] [$($e:expr),+];)+) => {
        $(fn $n(s: &mut Net2) { connect_states!(s, $(($x, $y, $q)),+); update_derivs!(s, $(($x, $y, $q)),+); })+
        pub static NETS2: &[F2] = &[$(($n, &[$($e),+])),+];
    };
}
net2! {
    m0 [(a, b, v)] [(0, 1, 0)];
    m1 [(b, a, w), (c, b, y)] [(1, 0, 1), (2, 1, 3)];
    m2 [(a, c, z), (a, c, x), (c, a, v)] [(0, 2, 4), (0, 2, 2), (2, 0, 0)];
    m3 [(r, b, v), (b, r, y), (a, r, x)] [(3, 1, 0), (1, 3, 3), (0, 3, 2)];
    m4 [(b, c, x), (c, a, w), (a, b, y), (b, c, v), (r, a, z)] [(1, 2, 2), (2, 0, 1), (0, 1, 3), (1, 2, 0), (3, 0, 4)];
    m5 [(c, r, z), (r, c, v), (b, a, x), (a, b, w)] [(2, 3, 4), (3, 2, 0), (1, 0, 2), (0, 1, 1)];
}
