//! G02 B-spline basis.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, Curve};
use geom3d::{Point3, Point4};
pub const LIST: &[(&str, fn())] = &[("g02_basis", basis), ("g02_small", small), ("g02_nonneg", nonneg), ("g02_curve", curve), ("g02_rational", rational)];

fn degree_interior(t: bool) -> (usize, usize) {
    let p = 1 + choice("degree", if t { 5 } else { 4 });
    let most = if t { [4, 4, 3, 2, 2][p - 1] } else { [3, 3, 2, 2][p - 1] };
    (p, choice("interior", most + 1))
}
fn basis() {
    let (p, q) = degree_interior(thorough());
    let kn = clamped("k", p, q);
    let (s, u) = param_in("u", &kn, &kn.spans(), true);
    let b = kn.vec().bspline_basis(p, u);
    prove(b.len() == p + 1 + q, "one basis value per control point");
    let e = cox(&kn, p, s, u);
    let mut sum = 0.0;
    for i in 0..b.len() {
        near(b[i], e[i], "basis value equals the Cox-de Boor recursion");
        if i + p < s || i > s { eq(b[i], 0.0, "basis functions whose support misses the parameter are zero") }
        sum = sum + b[i];
    }
    near(sum, 1.0, "basis values sum to one");
    observe("b", b[s]);
    reach(0);
}
/// The same over very short spans: far below the tolerance for lengths, which does not apply to parameters.
fn small() {
    let (p, q) = (1 + choice("degree", 2), choice("interior", 2));
    let kn = clamped_in("k", p, q, -1e-8, 1e-8, 1e-9, 1e-8);
    let (s, u) = param_in("u", &kn, &kn.spans(), true);
    let b = kn.vec().bspline_basis(p, u);
    let e = cox(&kn, p, s, u);
    let mut sum = 0.0;
    for i in 0..b.len() { near(b[i], e[i], "basis value equals the Cox-de Boor recursion"); sum = sum + b[i]; }
    near(sum, 1.0, "basis values sum to one");
    reach(0);
}
/// Sign and sum over concrete (dyadic) knot vectors, parameter symbolic over the whole closed range.
fn nonneg() {
    let p = 1 + choice("degree", 3);
    let inner: Vec<f64> = pick("inner", &[vec![], vec![1.0], vec![0.5, 2.0], vec![1.0, 1.0], vec![0.25, 0.5, 3.0], vec![1.0, 1.0, 2.0], vec![0.5, 1.0, 1.5, 2.0]]);
    let mut k = vec![0.0; p + 1]; k.extend(inner.iter()); k.extend(vec![4.0; p + 1]);
    if inner.windows(p + 1).any(|w| w[0] == w[p]) { assume(false) }
    let u = real("u", 0.0, 4.0);
    let b = geom3d::KnotVector(k).bspline_basis(p, u);
    let mut sum = 0.0;
    for v in &b { le(-1e-12, *v, "basis value is non-negative"); le(*v, 1.0 + 1e-12, "basis value is at most one"); sum = sum + *v }
    near(sum, 1.0, "basis values sum to one");
    reach(0);
}
fn curve() {
    let (p, q) = degree_interior(false);
    let q = q.min(2);
    let kn = clamped("k", p, q);
    let n = p + 1 + q;
    let cps: Vec<Point3> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let (s, u) = param_in("u", &kn, &kn.spans(), true);
    let c = BSplineCurve { control_points: cps.clone(), knots: kn.vec(), degree: p as u8 };
    prove(c.degree() == p, "degree is reported");
    let b = cox(&kn, p, s, u);
    let mut e = Point3::new(0.0, 0.0, 0.0);
    for i in 0..n { e = e + cps[i] * b[i] }
    let g = c.get_point(u);
    near3(g, e, "curve point is the basis-weighted combination of the control points");
    near3(c.get_point(kn.start()), cps[0], "clamped curve starts at its first control point");
    near3(c.get_point(kn.end()), cps[n - 1], "clamped curve ends at its last control point");
    obs3("g", g);
    reach(0);
}
fn rational() {
    let p = 1 + choice("degree", 3);
    let q = choice("interior", 3);
    let kn = clamped("k", p, q);
    let n = p + 1 + q;
    let cps: Vec<Point3> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let ws: Vec<f64> = (0..n).map(|i| real(&format!("w{i}"), 0.01, 100.0)).collect();
    let (s, u) = param_in("u", &kn, &kn.spans(), true);
    let c = BSplineCurve { control_points: (0..n).map(|i| Point4::new(cps[i].x * ws[i], cps[i].y * ws[i], cps[i].z * ws[i], ws[i])).collect(), knots: kn.vec(), degree: p as u8 };
    let b = cox(&kn, p, s, u);
    let (mut e, mut den) = (Point3::new(0.0, 0.0, 0.0), 0.0);
    for i in 0..n { e = e + cps[i] * (b[i] * ws[i]); den = den + b[i] * ws[i] }
    assume_ne(den, 0.0);
    near3(c.get_point(u), e / den, "rational curve point is the weighted combination");
    near3(c.get_point(kn.start()), cps[0], "rational clamped curve starts at its first control point");
    near3(c.get_point(kn.end()), cps[n - 1], "rational clamped curve ends at its last control point");
    reach(0);
}
