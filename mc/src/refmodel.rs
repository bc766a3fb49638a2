//! Reference model: textbook explicit Runge-Kutta tableaus and the report loop, written independently of dess.
use crate::systems::N;
pub type Y = [f64; N];

pub struct Tab {

    pub order: usize,
    pub c: Vec<f64>,
    pub a: Vec<Vec<f64>>,
    pub b: Vec<f64>,
    pub bh: Option<Vec<f64>>,
}
pub fn tableau(s: usize) -> Tab {
    match s {
        0 => Tab { order: 1, c: vec![0.], a: vec![vec![]], b: vec![1.], bh: None },
        1 => Tab { order: 2, c: vec![0., 1.], a: vec![vec![], vec![1.]], b: vec![0.5, 0.5], bh: None },
        2 => Tab { order: 2, c: vec![0., 0.5], a: vec![vec![], vec![0.5]], b: vec![0., 1.], bh: None },
        3 => Tab { order: 2, c: vec![0., 2. / 3.], a: vec![vec![], vec![2. / 3.]], b: vec![0.25, 0.75], bh: None },
        4 => Tab {
            order: 4,
            c: vec![0., 0.5, 0.5, 1.],
            a: vec![vec![], vec![0.5], vec![0., 0.5], vec![0., 0., 1.]],
            b: vec![1. / 6., 1. / 3., 1. / 3., 1. / 6.],
            bh: None,
        },
        5 => Tab {
            order: 3,
            c: vec![0., 0.5, 0.75, 1.],
            a: vec![vec![], vec![0.5], vec![0., 0.75], vec![2. / 9., 1. / 3., 4. / 9.]],
            b: vec![2. / 9., 1. / 3., 4. / 9., 0.],
            bh: Some(vec![7. / 24., 1. / 4., 1. / 3., 1. / 8.]),
        },
        6 => Tab {
            order: 5,
            c: vec![0., 0.2, 0.3, 0.6, 1., 0.875],
            a: vec![
                vec![],
                vec![0.2],
                vec![3. / 40., 9. / 40.],
                vec![0.3, -0.9, 1.2],
                vec![-11. / 54., 2.5, -70. / 27., 35. / 27.],
                vec![1631. / 55296., 175. / 512., 575. / 13824., 44275. / 110592., 253. / 4096.],
            ],
            b: vec![37. / 378., 0., 250. / 621., 125. / 594., 0., 512. / 1771.],
            bh: Some(vec![2825. / 27648., 0., 18575. / 48384., 13525. / 55296., 277. / 14336., 0.25]),
        },
        _ => unreachable!(),
    }
}
/// increments of the main and the embedded solution over one step
pub fn rk(tab: &Tab, f: &dyn Fn(f64, &Y) -> Y, t: f64, y: &Y, h: f64) -> (Y, Y) {
    let s = tab.b.len();
    let mut k: Vec<Y> = Vec::with_capacity(s);
    for i in 0..s {
        let mut yi = *y;
        for j in 0..i {
            for n in 0..N {
                yi[n] += h * tab.a[i].get(j).copied().unwrap_or(0.) * k[j][n];
            }
        }
        k.push(f(t + tab.c[i] * h, &yi));
    }
    let comb = |b: &[f64]| {
        let mut d = [0.0; N];
        for i in 0..s {
            for n in 0..N {
                d[n] += h * b[i] * k[i][n];
            }
        }
        d
    };
    (comb(&tab.b), tab.bh.as_ref().map(|b| comb(b)).unwrap_or([0.0; N]))
}
pub fn norm(x: &[f64]) -> f64 {
    x.iter().map(|v| v * v).sum::<f64>().sqrt()
}
pub fn sub(a: &Y, b: &Y) -> Y {
    std::array::from_fn(|i| a[i] - b[i])
}
pub fn add(a: &Y, b: &Y) -> Y {
    std::array::from_fn(|i| a[i] + b[i])
}
/// fixed-step walk: (time, state) at every report
pub fn walk_fixed(s: usize, f: &dyn Fn(f64, &Y) -> Y, t0: f64, y0: &Y, dt: f64, rep: &[f64]) -> Vec<(f64, Y)> {
    let tab = tableau(s);
    let (mut t, mut y) = (t0, *y0);
    let mut out = vec![];
    for r in rep {
        while t < *r {
            let h = dt.min(*r - t);
            y = add(&y, &rk(&tab, f, t, &y, h).0);
            t += h;
        }
        out.push((t, y));
    }
    out
}
/// closeness up to rounding amplified over a run
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs()).max(1.0)
}
pub fn close_y(a: &[f64], b: &[f64], tol: f64) -> bool {
    let s = a.iter().chain(b).fold(1.0f64, |m, v| m.max(v.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= tol * s)
}
