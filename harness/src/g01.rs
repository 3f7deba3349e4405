//! G01 Bezier curves evaluate to the Bernstein blend of their control points.
use crate::sym::*;
use geom3d::curve::{BezierCurve, Curve};
use geom3d::{Point3, Point4};
pub const LIST: &[(&str, fn())] = &[("g01_plain", plain), ("g01_rational", rational), ("g01_basis", basis)];

fn binom(n: usize, k: usize) -> f64 { (0..k).fold(1.0, |a, i| a * (n - i) as f64 / (i + 1) as f64) }
pub fn bern(n: usize, k: usize, u: f64) -> f64 { let mut r = binom(n, k); for _ in 0..k { r = r * u } for _ in k..n { r = r * (1.0 - u) } r }

fn plain() {
    let n = 1 + choice("points", 7);
    let cps: Vec<_> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let u = real("u", 0.0, 1.0);
    let c = BezierCurve { control_points: cps.clone() };
    prove(c.degree() == n - 1, "degree is number of control points minus one");
    let p = c.get_point(u);
    let mut e = Point3::new(0.0, 0.0, 0.0);
    for k in 0..n { e = e + cps[k] * bern(n - 1, k, u) }
    near3(p, e, "curve point is the Bernstein blend of the control points");
    near3(c.get_point(0.0), cps[0], "curve starts at the first control point");
    near3(c.get_point(1.0), cps[n - 1], "curve ends at the last control point");
    obs3("p", p);
    reach(0);
}
/// Unit control points expose each basis value: non-negative and summing to one, so points stay in the hull.
fn basis() {
    let n = 1 + choice("points", 6);
    let u = real("u", 0.0, 1.0);
    let mut sum = 0.0;
    for k in 0..n {
        let cps = (0..n).map(|i| Point3::new(if i == k { 1.0 } else { 0.0 }, 1.0, 0.0)).collect();
        let p = BezierCurve { control_points: cps }.get_point(u);
        le(0.0, p.x, "basis value is non-negative");
        le(p.x, 1.0, "basis value is at most one");
        near(p.y, 1.0, "basis values sum to one");
        near(p.z, 0.0, "no spurious offset");
        sum = sum + p.x;
    }
    near(sum, 1.0, "basis values sum to one");
    reach(0);
}
fn rational() {
    let n = 1 + choice("points", 5);
    let cps: Vec<_> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let ws: Vec<_> = (0..n).map(|i| real(&format!("w{i}"), 0.01, 100.0)).collect();
    let u = real("u", 0.0, 1.0);
    let h: Vec<_> = (0..n).map(|i| Point4::new(cps[i].x * ws[i], cps[i].y * ws[i], cps[i].z * ws[i], ws[i])).collect();
    let c = BezierCurve { control_points: h };
    let mut den = 0.0;
    let mut e = Point3::new(0.0, 0.0, 0.0);
    for k in 0..n { den = den + bern(n - 1, k, u) * ws[k]; e = e + cps[k] * (bern(n - 1, k, u) * ws[k]) }
    assume_lt(0.0, den);
    let p = c.get_point(u);
    near3(p, e / den, "rational curve point is the weighted Bernstein blend");
    near3(c.get_point(0.0), cps[0], "rational curve starts at the first control point");
    near3(c.get_point(1.0), cps[n - 1], "rational curve ends at the last control point");
    let w = real("weq", 0.01, 100.0);
    let eqw = BezierCurve { control_points: cps.iter().map(|q| Point4::new(q.x * w, q.y * w, q.z * w, w)).collect() };
    near3(eqw.get_point(u), BezierCurve { control_points: cps.clone() }.get_point(u), "equal weights give the plain curve");
    obs3("p", p);
    reach(0);
}
