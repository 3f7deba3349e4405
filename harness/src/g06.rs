//! G06 projection onto lines, polylines, degree-1 curves and circles returns the nearest point.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Circle, Curve, Line, Polyline};
use geom3d::{KnotVector, Point3};
pub const LIST: &[(&str, fn())] = &[("g06_line", line), ("g06_polyline", polyline), ("g06_bezier1", bezier1), ("g06_bspline1", bspline1), ("g06_circle", circle), ("g06_own_points", own), ("g06_on_ref_dir", on_ref_dir)];

fn line() {
    let o = p3("o", 100.0); let d = p3("d", 10.0); let p = p3("p", 100.0);
    assume_le(0.01, d.length_squared());
    let c = Line { origin: o, direction: d };
    let u = c.project(p);
    let q = c.get_point(u);
    near((p - q).dot(d), 0.0, "the offset to the projected point is orthogonal to the line");
    let t = real("t", -100.0, 100.0);
    near3(c.get_point(t), o + d * t, "line point is origin + t direction");
    near(c.project(c.get_point(t)), t, "projecting a point of the line returns its parameter");
    reach(0);
}
fn nearest(v: &[Point3], p: Point3, q: Point3, msg: &str) {
    let d = (q - p).length_squared();
    for i in 0..v.len() { le(d, (v[i] - p).length_squared() + 1e-6, msg) }
    for i in 0..v.len() - 1 {
        // the inside of segment i counts when the foot of the perpendicular is on it
        let (ab, ap) = (v[i + 1] - v[i], p - v[i]);
        let (t, l) = (ap.dot(ab), ab.length_squared());
        if !is_symbolic(l) && l == 0.0 { continue }
        prove_f(f_any(vec![f_cmp(t, 0.0, LE), f_cmp(l, t, LE), f_cmp(d * l, ap.length_squared() * l - t * t + 1e-6 * l, LE)]), msg);
    }
}
fn polyline() {
    let n = 1 + choice("segments", if thorough() { 3 } else { 2 });
    let (v, _) = rational_path("s", n, if thorough() { &[0, 1, 2, 3, 5] } else { &[0, 1, 2] }, true);
    let p = p3("p", 20.0);
    let c = Polyline::new(v.clone());
    let u = c.project(p);
    prove(is_symbolic(u) || !u.is_nan(), "the parameter is a number");
    le(0.0, u, "parameter at least 0"); le(u, 1.0, "parameter at most 1");
    let q = c.get_point(u);
    nearest(&v, p, q, "no point of the polyline is nearer than the projected one");
    reach(0);
}
fn bezier1() {
    let (v, _) = rational_path("s", 1, &[0, 1, 2], false);
    let p = p3("p", 20.0);
    let c = BezierCurve { control_points: v.clone() };
    let u = c.project(p);
    le(0.0, u, "parameter at least 0"); le(u, 1.0, "parameter at most 1");
    nearest(&v, p, c.get_point(u), "no point of the degree-1 Bezier curve is nearer than the projected one");
    reach(0);
}
fn bspline1() {
    let n = 1 + choice("segments", 2);
    let (v, _) = rational_path("s", n, &[0, 1, 2], false);
    let p = p3("p", 20.0);
    let mut k = vec![real("k0", -10.0, 10.0)];
    k.push(k[0]);
    for i in 0..n { let l = *k.last().unwrap(); k.push(l + real(&format!("gap{i}"), 0.01, 10.0)) }
    k.push(*k.last().unwrap());
    let c = BSplineCurve { control_points: v.clone(), knots: KnotVector(k.clone()), degree: 1 };
    let u = c.project(p);
    le(k[0], u, "parameter at least the range start"); le(u, k[n + 2], "parameter at most the range end");
    nearest(&v, p, c.get_point(u), "no point of the degree-1 B-spline curve is nearer than the projected one");
    reach(0);
}
fn circle() {
    let (x, y, z) = frame("f", 4);
    let o = p3("o", 10.0); let r = real("r", 0.01, 100.0);
    let (a, b, h) = (real("a", -100.0, 100.0), real("b", -100.0, 100.0), real("h", -100.0, 100.0));
    assume_lt(0.0001, a * a + b * b);
    let p = o + x * a + y * b + z * h;
    let c = Circle { center: o, radius: r, axis: z, ref_dir: x };
    let u = c.project(p);
    le(0.0, u, "angle at least 0"); lt(u, geom3d::consts::TAU, "angle below 2 pi");
    let q = c.get_point(u) - o;
    // nearest: q points along the projection of p - o into the circle plane
    near(q.dot(z), 0.0, "the point lies in the circle plane");
    near(q.dot(x) * b, q.dot(y) * a, "the point is in the direction of the given point");
    le(0.0, q.dot(x) * a + q.dot(y) * b, "the point is on the side of the given point");
    near(q.length_squared(), r * r, "the point is on the circle");
    reach(0);
}
/// A point exactly in the reference direction is at angle 0, not a full turn.
fn on_ref_dir() {
    let (x, _, z) = frame("f", 1);
    let o = p3("o", 10.0); let c = Circle { center: o, radius: real("r", 0.01, 100.0), axis: z, ref_dir: x };
    near(c.project(o + x * real("a", 0.01, 100.0) + z * real("h", -100.0, 100.0)), 0.0, "a point in the reference direction is at angle 0");
    reach(0);
}
/// Projecting a point of a polyline returns to it.
fn own() {
    let n = 1 + choice("segments", if thorough() { 3 } else { 2 });
    let (v, _) = rational_path("s", n, &[0, 1, 2, 3], true);
    let i = choice("on", n);
    let p = v[i] + (v[i + 1] - v[i]) * real("l", 0.0, 1.0);
    let c = Polyline::new(v);
    let q = c.get_point(c.project(p));
    near3_tol(q, p, 1e-6, "projecting a point of the polyline returns to it");
    reach(0);
}
