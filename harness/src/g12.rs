//! G12 tensor-product surfaces.
use crate::common::*;
use crate::g01::bern;
use crate::sym::*;
use geom3d::curve::{BezierCurve, BSplineCurve, Curve};
use geom3d::surface::*;
use geom3d::{Grid, Point3, Point4};
pub const LIST: &[(&str, fn())] = &[("g12_bezier", bezier), ("g12_bezier_rational", bezier_rational), ("g12_bspline", bspline), ("g12_bspline_rational", bspline_rational), ("g12_boundary", boundary), ("g12_uniform", uniform)];

fn points(n: usize, m: usize) -> Vec<Point3> { (0..n * m).map(|i| p3(&format!("p{}_{}", i / m, i % m), 100.0)).collect() }
fn weights(n: usize, m: usize) -> Vec<f64> { (0..n * m).map(|i| real(&format!("w{}_{}", i / m, i % m), 0.1, 10.0)).collect() }
fn homog(p: &[Point3], w: &[f64]) -> Vec<Point4> { p.iter().zip(w).map(|(p, w)| Point4::new(p.x * *w, p.y * *w, p.z * *w, *w)).collect() }
fn blend(bu: &[f64], bv: &[f64], p: &[Point3], w: Option<&[f64]>) -> (Point3, f64) {
    let m = bv.len();
    let (mut e, mut d) = (Point3::new(0., 0., 0.), 0.0);
    for i in 0..bu.len() { for j in 0..m { let b = bu[i] * bv[j] * w.map_or(1.0, |w| w[i * m + j]); e = e + p[i * m + j] * b; d = d + b } }
    (e, d)
}
fn corners(s: &dyn Surface, (u0, u1): (f64, f64), (v0, v1): (f64, f64), p: &[Point3], n: usize, m: usize) {
    near3(s.get_point(u0, v0), p[0], "corner (first u, first v)");
    near3(s.get_point(u0, v1), p[m - 1], "corner (first u, last v)");
    near3(s.get_point(u1, v0), p[(n - 1) * m], "corner (last u, first v)");
    near3(s.get_point(u1, v1), p[n * m - 1], "corner (last u, last v)");
}
fn bezier() {
    let (n, m) = (2 + choice("rows", 3), 2 + choice("cols", 3));
    let p = points(n, m);
    let (u, v) = (real("u", 0.0, 1.0), real("v", 0.0, 1.0));
    let s = BezierSurface::new(Grid::from_vec(p.clone(), m));
    let bu: Vec<f64> = (0..n).map(|k| bern(n - 1, k, u)).collect(); let bv: Vec<f64> = (0..m).map(|k| bern(m - 1, k, v)).collect();
    let g = s.get_point(u, v);
    near3(g, blend(&bu, &bv, &p, None).0, "surface point is the tensor-product blend");
    corners(&s, (0.0, 1.0), (0.0, 1.0), &p, n, m);
    obs3("g", g);
    reach(0);
}
fn bezier_rational() {
    let (n, m) = (2 + choice("rows", 2), 2 + choice("cols", 2));
    let p = points(n, m); let w = weights(n, m);
    let (u, v) = (real("u", 0.0, 1.0), real("v", 0.0, 1.0));
    let s = BezierSurface::new(Grid::from_vec(homog(&p, &w), m));
    let bu: Vec<f64> = (0..n).map(|k| bern(n - 1, k, u)).collect(); let bv: Vec<f64> = (0..m).map(|k| bern(m - 1, k, v)).collect();
    let (e, d) = blend(&bu, &bv, &p, Some(&w));
    assume_lt(0.0, d);
    near3(s.get_point(u, v), e / d, "rational surface point is the weighted average");
    corners(&s, (0.0, 1.0), (0.0, 1.0), &p, n, m);
    let k = real("weq", 0.1, 10.0);
    let eqs = BezierSurface::new(Grid::from_vec(homog(&p, &vec![k; n * m]), m));
    near3(eqs.get_point(u, v), BezierSurface::new(Grid::from_vec(p.clone(), m)).get_point(u, v), "equal weights give the plain surface");
    reach(0);
}
fn setup(most: usize) -> (Knots, Knots, usize, usize, usize, usize) {
    let (p, q) = (1 + choice("du", most), 1 + choice("dv", most));
    let (iu, iv) = (choice("iu", 3), choice("iv", 2));
    let (iu, iv) = if p + iu > 4 || q + iv > 4 { (iu.min(1), 0) } else { (iu, iv) };
    let (ku, kv) = (clamped("ku", p, iu), clamped("kv", q, iv));
    (ku, kv, p, q, p + 1 + iu, q + 1 + iv)
}
fn bspline() {
    let (ku, kv, p, q, n, m) = setup(3);
    let pts = points(n, m);
    let s = BSplineSurface::new(Grid::from_vec(pts.clone(), m), (ku.vec(), kv.vec()), (p, q));
    let (su, u) = param_in("u", &ku, &ku.spans(), true); let (sv, v) = param_in("v", &kv, &kv.spans(), true);
    let g = s.get_point(u, v);
    near3(g, blend(&cox(&ku, p, su, u), &cox(&kv, q, sv, v), &pts, None).0, "surface point is the tensor-product blend");
    corners(&s, (ku.start(), ku.end()), (kv.start(), kv.end()), &pts, n, m);
    obs3("g", g);
    reach(0);
}
fn bspline_rational() {
    let (p, q) = (1 + choice("du", 2), 1 + choice("dv", 2));
    let (iu, iv) = (choice("iu", 2), choice("iv", 2));
    let (ku, kv) = (clamped("ku", p, iu), clamped("kv", q, iv));
    let (n, m) = (p + 1 + iu, q + 1 + iv);
    // two of three coordinates concrete keep the weighted quotients small
    let pts: Vec<Point3> = (0..n * m).map(|i| Point3::new(real(&format!("p{i}"), -100.0, 100.0), (i % m) as f64 + 0.5, (i / m) as f64 - 1.0)).collect();
    let w = weights(n, m);
    let s = BSplineSurface::new(Grid::from_vec(homog(&pts, &w), m), (ku.vec(), kv.vec()), (p, q));
    let (su, u) = param_in("u", &ku, &ku.spans(), true); let (sv, v) = param_in("v", &kv, &kv.spans(), true);
    let (e, d) = blend(&cox(&ku, p, su, u), &cox(&kv, q, sv, v), &pts, Some(&w));
    assume_ne(d, 0.0);
    near3(s.get_point(u, v), e / d, "rational surface point is the weighted average");
    corners(&s, (ku.start(), ku.end()), (kv.start(), kv.end()), &pts, n, m);
    let plain = BSplineSurface::new(Grid::from_vec(pts.clone(), m), (ku.vec(), kv.vec()), (p, q));
    let k = real("weq", 0.1, 10.0);
    let eqs = BSplineSurface::new(Grid::from_vec(homog(&pts, &vec![k; n * m]), m), (ku.vec(), kv.vec()), (p, q));
    near3(eqs.get_point(u, v), plain.get_point(u, v), "equal weights give the plain surface");
    reach(0);
}
fn boundary() {
    let (ku, kv, p, q, n, m) = setup(2);
    let pts = points(n, m);
    let s = BSplineSurface::new(Grid::from_vec(pts.clone(), m), (ku.vec(), kv.vec()), (p, q));
    let (_, u) = param_in("u", &ku, &ku.spans(), true);
    let (_, v) = param_in("v", &kv, &kv.spans(), true);
    let row = |i: usize| BSplineCurve { control_points: pts[i * m..(i + 1) * m].to_vec(), knots: kv.vec(), degree: q as u8 };
    let col = |j: usize| BSplineCurve { control_points: (0..n).map(|i| pts[i * m + j]).collect(), knots: ku.vec(), degree: p as u8 };
    near3(s.get_point(ku.start(), v), row(0).get_point(v), "the u-start boundary is the curve of the first row");
    near3(s.get_point(ku.end(), v), row(n - 1).get_point(v), "the u-end boundary is the curve of the last row");
    near3(s.get_point(u, kv.start()), col(0).get_point(u), "the v-start boundary is the curve of the first column");
    near3(s.get_point(u, kv.end()), col(m - 1).get_point(u), "the v-end boundary is the curve of the last column");
    let x = real("x", 0.0, 1.0);
    let b = BezierSurface::new(Grid::from_vec(pts.clone(), m));
    near3(b.get_point(0.0, x), BezierCurve { control_points: pts[0..m].to_vec() }.get_point(x), "Bezier boundary is the first row's curve");
    near3(b.get_point(x, 1.0), BezierCurve { control_points: (0..n).map(|i| pts[i * m + m - 1]).collect::<Vec<_>>() }.get_point(x), "Bezier boundary is the last column's curve");
    reach(0);
}
/// uniform_clamped builds clamped, evenly spaced knots for any grid.
fn uniform() {
    let (p, q) = (1 + choice("du", 3), 1 + choice("dv", 3));
    let (n, m) = (p + 1 + choice("iu", 2), q + 1 + choice("iv", 3));
    let pts: Vec<Point3> = (0..n * m).map(|i| Point3::new(real(&format!("p{i}"), -100.0, 100.0), 0.0, 0.0)).collect();
    let s = BSplineSurface::uniform_clamped(Grid::from_vec(pts.clone(), m), (p, q));
    prove(s.knots.0.len() == n + p + 1 && s.knots.1.len() == m + q + 1, "knot counts fit the grid");
    prove(s.degree == (p as u8, q as u8), "degrees are kept");
    for (k, d, c) in [(&s.knots.0, p, n), (&s.knots.1, q, m)] {
        for i in 0..k.len() { let e = if i <= d { 0.0 } else if i >= c { 1.0 } else { (i - d) as f64 / (c - d) as f64 }; near(k[i], e, "knots are clamped and even") }
    }
    corners(&s, (0.0, 1.0), (0.0, 1.0), &pts, n, m);
    reach(0);
}
