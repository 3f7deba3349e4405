//! G07 iterative projection: in range always, exact on affine curves and parallelograms, always a number.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::surface::BSplineSurface;
use geom3d::utils::find_nearest_parameter;
use geom3d::{Grid, KnotVector, Point2, Point3};
pub const LIST: &[(&str, fn())] = &[("g07_range", range), ("g07_bezier", bezier), ("g07_bspline", bspline), ("g07_surface", surface), ("g07_line_surface", line_surface), ("g07_pole", pole)];

/// A curve whose values are arbitrary: every evaluation returns a fresh point.
#[derive(Debug)]
struct Havoc(&'static str);
impl Curve for Havoc {
    fn get_point(&self, _u: f64) -> Point3 { Point3::new(real(self.0, -100.0, 100.0), 0.0, 0.0) }
    fn project(&self, _: Point3) -> f64 { 0.0 }
}
fn range() {
    set_timeout(500);
    let (a, b) = (real("a", -100.0, 100.0), real("b", -100.0, 100.0));
    let division = 1 + choice("division", 2);
    let trials = choice("trials", if thorough() { 4 } else { 3 });
    let u = find_nearest_parameter(&Havoc("c"), &Havoc("d"), &Havoc("e"), Point3::new(0.0, 0.0, 0.0), (a, b), division, trials);
    prove(is_symbolic(u) || !u.is_nan(), "the parameter is a number");
    prove_f(f_any(vec![f_all(vec![f_cmp(a, u, LE), f_cmp(u, b, LE)]), f_all(vec![f_cmp(b, u, LE), f_cmp(u, a, LE)])]), "the parameter is in the range");
    reach(0);
}
/// u is the parameter of the nearest point of `o + d * (u - s) / (e - s)`, clamped to [s, e]
fn check_line(u: f64, o: Point3, d: Point3, (s, e): (f64, f64), p: Point3) {
    prove(is_symbolic(u) || !u.is_nan(), "the parameter is a number");
    le(s, u, "parameter at least the range start"); le(u, e, "parameter at most the range end");
    let l = d.length_squared();
    // signed distance of the foot from the found point, times |d|^2
    let f = (p - o).dot(d) - l * ((u - s) / (e - s));
    // the iteration stops when tangent . offset is within 1e-7, tangent = d / (e - s)
    let tol = 2e-7 * (e - s).abs().max(1.0);
    let exact = f_all(vec![f_cmp(f, tol, LE), f_cmp(-tol, f, LE)]);
    // or within a distance of sqrt(1e-7) of the point itself
    let q = o + d * ((u - s) / (e - s)) - p;
    prove_f(f_any(vec![exact, f_cmp(q.length_squared(), 2e-7, LE), f_all(vec![f_cmp(u, s, EQ), f_cmp(f, 0.0, LE)]), f_all(vec![f_cmp(u, e, EQ), f_cmp(0.0, f, LE)])]), "the parameter is the nearest point's, clamped to the range");
}
fn line_setup() -> (Point3, Point3, Point3) {
    let o = Point3::new(3.0, 2.0, -1.0);
    let (d, e) = pick("dir", &[(Point3::new(12., 24., -24.), Point3::new(2., 1., 2.)), (Point3::new(0., -12., 0.), Point3::new(1., 0., 0.)), (Point3::new(3., 1.5, 24.), Point3::new(-1., 2., 0.))]);
    // any point of a plane through the line
    (o, d, o + d * real("along", -3.0, 4.0) + e * real("off", -3.0, 3.0))
}
fn bezier() {
    let (o, d, p) = line_setup();
    let n = 2 + choice("degree", if thorough() { 4 } else { 2 });
    let c = BezierCurve { control_points: (0..=n).map(|i| o + d * i as f64 / n as f64).collect() };
    check_line(c.project(p), o, d, (0.0, 1.0), p);
    reach(0);
}
const KNOTS: [(usize, &[f64]); 5] = [(2, &[0., 0., 0., 1., 1., 1.]), (2, &[2., 2., 2., 3., 5., 5., 5.]), (3, &[-1., -1., -1., -1., 1., 1., 1., 1.]), (2, &[-4., -4., -4., -2., -2., 0., 0., 0.]), (3, &[0., 0., 0., 0., 0.5, 2., 2., 2., 2.])];
fn greville(k: &[f64], p: usize) -> Vec<f64> { let (s, e) = (k[0], k[k.len() - 1]); (0..k.len() - p - 1).map(|i| (k[i + 1..=i + p].iter().sum::<f64>() / p as f64 - s) / (e - s)).collect() }
fn bspline() {
    let (o, d, p) = line_setup();
    let (deg, k) = pick("knots", if thorough() { &KNOTS } else { &KNOTS[..3] });
    let c = BSplineCurve { control_points: greville(k, deg).iter().map(|g| o + d * *g).collect(), knots: KnotVector(k.to_vec()), degree: deg as u8 };
    check_line(c.project(p), o, d, (k[0], k[k.len() - 1]), p);
    reach(0);
}
fn parallelogram(pu: usize, ku: &[f64], pv: usize, kv: &[f64], o: Point3, a: Point3, b: Point3) -> BSplineSurface<Point3> {
    let (gu, gv) = (greville(ku, pu), greville(kv, pv));
    let pts = gu.iter().flat_map(|x| gv.iter().map(move |y| o + a * *x + b * *y)).collect::<Vec<_>>();
    BSplineSurface::new(Grid::from_vec(pts, gv.len()), (KnotVector(ku.to_vec()), KnotVector(kv.to_vec())), (pu, pv))
}
fn clamped_near(u: f64, e: f64, s: f64, t: f64, msg: &str) {
    // u is e clamped to [s, t], up to the stopping tolerance
    let c = f_any(vec![f_all(vec![f_cmp(e, u + 1e-3, LE), f_cmp(u, e + 1e-3, LE)]), f_all(vec![f_cmp(u, s, EQ), f_cmp(e, s, LE)]), f_all(vec![f_cmp(u, t, EQ), f_cmp(t, e, LE)])]);
    prove_f(c, msg);
}
fn check_surface(s: &BSplineSurface<Point3>, o: Point3, a: Point3, b: Point3, x: f64, y: f64, h: f64) {
    let n = a.cross(b);
    let p = o + a * x + b * y + n * h;
    let q = s.project_points(&[p]);
    prove(q.len() == 1, "one result per point");
    let ((us, ue), (vs, ve)) = (s.knots.0.range(), s.knots.1.range());
    for u in [q[0].x, q[0].y] { prove(is_symbolic(u) || !u.is_nan(), "the parameters are numbers") }
    le(us, q[0].x, "u at least the range start"); le(q[0].x, ue, "u at most the range end");
    le(vs, q[0].y, "v at least the range start"); le(q[0].y, ve, "v at most the range end");
    clamped_near(q[0].x, us + (ue - us) * x, us, ue, "u is the nearest point's, clamped to the range");
    clamped_near(q[0].y, vs + (ve - vs) * y, vs, ve, "v is the nearest point's, clamped to the range");
}
fn surface() {
    set_exact();
    const Q: [f64; 4] = [0., 0., 1., 1.]; const R: [f64; 4] = [2., 2., 5., 5.];
    const S: [f64; 7] = [0., 0., 0., 1., 2., 2., 2.];
    let (pu, ku, pv, kv): (usize, &[f64], usize, &[f64]) = pick("shape", if thorough() { &[(1, &Q, 1, &Q), (1, &Q, 1, &R), (2, &S, 1, &R), (1, &R, 2, &S)] } else { &[(1, &R, 2, &S), (2, &S, 1, &R)] });
    let o = Point3::new(1.0, 2.0, -1.0);
    let (a, b) = pick("axes", &[(Point3::new(4., 0., 0.), Point3::new(0., 2., 0.)), (Point3::new(2., 1., 0.), Point3::new(0., 1., 3.))]);
    let s = parallelogram(pu, ku, pv, kv, o, a, b);
    let t = real("t", -1.0, 2.0);
    let lines = [(t, t), (0.7, t), (t, 0.3), (t, 1.5)];
    // points along four lines in the plane of the surface, on it and above it
    let (x, y) = pick("line", if thorough() { &lines[..] } else { &lines[..2] });
    check_surface(&s, o, a, b, x, y, pick("h", if thorough() { &[1.5, 0.0] } else { &[1.5] }));
    reach(0);
}
/// Several points at once: each result belongs to its own point, in order.
fn line_surface() {
    const S: [f64; 7] = [0., 0., 0., 1., 2., 2., 2.]; const R: [f64; 4] = [2., 2., 5., 5.];
    let (o, a, b) = (Point3::new(0., 0., 0.), Point3::new(4., 0., 0.), Point3::new(0., 2., 0.));
    let s = parallelogram(2, &S, 1, &R, o, a, b);
    let x = real("x", 0.0, 1.0); let y = 0.7;
    let q = s.project_points(&[o + a * x, o + b * y, o + a + b]);
    prove(q.len() == 3, "one result per point");
    near_tol(q[0].x, 2.0 * x, 1e-3, "first point u"); near_tol(q[0].y, 2.0, 1e-3, "first point v");
    near_tol(q[1].x, 0.0, 1e-3, "second point u"); near_tol(q[1].y, 2.0 + 3.0 * y, 1e-3, "second point v");
    near_tol(q[2].x, 2.0, 1e-3, "third point u"); near_tol(q[2].y, 5.0, 1e-3, "third point v");
    reach(0);
}
/// Surfaces with a degenerate point: the iteration may meet a singular Jacobian, the result is still a number in range.
fn pole() {
    let k = KnotVector::bezier_knot(2);
    let h = real("h", 0.5, 5.0);
    let (pts, p): (Vec<Point3>, Point3) = match choice("shape", 3) {
        // all points equal
        0 => (vec![Point3::new(1., 1., 1.); 9], Point3::new(1., 1., 1.0 + h)),
        // a whole edge collapsed to the origin, the point behind the pole
        1 => ((0..9).map(|i| { let (r, c) = ((i / 3) as f64, (i % 3) as f64 - 1.0); Point3::new(r, r * c, 0.0) }).collect(), Point3::new(-h, 0.0, 0.0)),
        // the surface is a curve: v has no effect
        _ => ((0..9).map(|i| Point3::new((i / 3) as f64, 0.0, 0.0)).collect(), Point3::new(0.3, 0.0, h)),
    };
    let s = BSplineSurface::new(Grid::from_vec(pts, 3), (k.clone(), k), (2, 2));
    let q: Vec<Point2> = s.project_points(&[p]);
    for u in [q[0].x, q[0].y] { prove(is_symbolic(u) || !u.is_nan(), "the parameters are numbers"); le(0.0, u, "parameter at least 0"); le(u, 1.0, "parameter at most 1") }
    reach(0);
}
