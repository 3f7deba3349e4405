//! G03 derivatives: Taylor's formula f(u+h) = sum h^k/k! f^(k)(u) with u and u+h in one span.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve};
use geom3d::surface::{BSplineSurface, Surface};
use geom3d::{Grid, Point3};
pub const LIST: &[(&str, fn())] = &[("g03_bezier", bezier), ("g03_bspline", bspline), ("g03_surface", surface), ("g03_surface_mixed", mixed)];

fn bezier() {
    let n = 2 + choice("points", 6);
    let cps: Vec<Point3> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let u = real("u", 0.0, 1.0);
    let h = real("h", -1.0, 1.0);
    assume_le(0.0, u + h); assume_le(u + h, 1.0);
    let f = BezierCurve { control_points: cps };
    let e = f.get_point(u + h);
    let mut sum = f.get_point(u);
    let mut d = f.derivative();
    let mut hk = 1.0;
    for k in 1..n {
        prove(d.control_points.len() == n - k, "k-th derivative has k control points less");
        prove(d.degree() == n - 1 - k, "k-th derivative has degree n-k");
        hk = hk * h;
        sum = sum + d.get_point(u) * (hk / fact(k));
        if k + 1 < n { d = d.derivative() }
    }
    near3(e, sum, "Taylor expansion with the derivative curves reproduces the curve");
    reach(0);
}
/// u and u+h both in span s (closed on the right only for the last span, where the curve is evaluated from the left)
fn two(kn: &Knots, name: &str) -> (usize, f64, f64) {
    let sp = kn.spans();
    let (s, u) = param_in(name, kn, &sp, true);
    let h = real(&format!("{name}h"), -1e4, 1e4);
    assume_le(kn.k[s], u + h);
    if s == sp[sp.len() - 1] { assume_le(u + h, kn.k[s + 1]) } else { assume_lt(u + h, kn.k[s + 1]) }
    (s, u, h)
}
fn bspline() {
    let p = 1 + choice("degree", 4);
    let q = choice("interior", [4, 4, 3, 2][p - 1]);
    let kn = clamped("k", p, q);
    let n = p + 1 + q;
    let cps: Vec<Point3> = (0..n).map(|i| p3(&format!("p{i}"), 100.0)).collect();
    let (_, u, h) = two(&kn, "u");
    let f = BSplineCurve { control_points: cps, knots: kn.vec(), degree: p as u8 };
    let e = f.get_point(u + h);
    let mut sum = f.get_point(u);
    let mut d = f.derivative();
    let mut hk = 1.0;
    for k in 1..=p {
        prove(d.degree() == p - k, "k-th derivative has degree p-k");
        prove(d.control_points.len() == n - k, "k-th derivative has k control points less");
        prove(d.knots.len() == n - k + p - k + 1, "k-th derivative's knot count fits");
        hk = hk * h;
        sum = sum + d.get_point(u) * (hk / fact(k));
        if k < p { d = d.derivative() }
    }
    near3(e, sum, "Taylor expansion with the derivative curves reproduces the curve");
    reach(0);
}
fn grid(n: usize, m: usize, z_only: bool) -> Grid<Point3> {
    let mut v = vec![];
    for i in 0..n { for j in 0..m { v.push(if z_only { Point3::new(i as f64, j as f64 * 2.0, real(&format!("z{i}_{j}"), -100.0, 100.0)) } else { p3(&format!("p{i}_{j}"), 100.0) }) } }
    Grid::from_vec(v, m)
}
fn surf(lo: usize, hi: usize, z_only: bool) -> (BSplineSurface<Point3>, Knots, Knots, usize, usize) {
    let (p, q) = (lo + choice("du", hi + 1 - lo), lo + choice("dv", hi + 1 - lo));
    let (iu, iv) = (choice("iu", 2), choice("iv", 2));
    let (ku, kv) = (clamped("ku", p, iu), clamped("kv", q, iv));
    let g = grid(p + 1 + iu, q + 1 + iv, z_only);
    let knots = (ku.vec(), kv.vec());
    (BSplineSurface { control_points: g, knots, degree: (p as u8, q as u8) }, ku, kv, p, q)
}
fn surface() {
    let (f, ku, kv, p, q) = surf(1, 2, false);
    let (n, m) = f.control_points.size();
    let in_u = choice("direction", 2) == 0;
    if in_u {
        let (_, u, h) = two(&ku, "u");
        let (_, v) = param_in("v", &kv, &kv.spans(), true);
        let e = f.get_point(u + h, v);
        let mut sum = f.get_point(u, v);
        let mut d = f.derivative_u();
        let mut hk = 1.0;
        for k in 1..=p {
            prove(d.degree == ((p - k) as u8, q as u8), "derivative_u lowers the u degree only");
            prove(d.control_points.size() == (n - k, m), "derivative_u drops one row");
            hk = hk * h;
            sum = sum + d.get_point(u, v) * (hk / fact(k));
            if k < p { d = d.derivative_u() }
        }
        near3(e, sum, "Taylor expansion in u reproduces the surface");
    } else {
        let (_, u) = param_in("u", &ku, &ku.spans(), true);
        let (_, v, h) = two(&kv, "v");
        let e = f.get_point(u, v + h);
        let mut sum = f.get_point(u, v);
        let mut d = f.derivative_v();
        let mut hk = 1.0;
        for k in 1..=q {
            prove(d.degree == (p as u8, (q - k) as u8), "derivative_v lowers the v degree only");
            prove(d.control_points.size() == (n, m - k), "derivative_v drops one column");
            hk = hk * h;
            sum = sum + d.get_point(u, v) * (hk / fact(k));
            if k < q { d = d.derivative_v() }
        }
        near3(e, sum, "Taylor expansion in v reproduces the surface");
    }
    reach(0);
}
/// Mixed derivatives agree in either order and reproduce a second-order expansion; a direction of degree zero has derivative 0.
fn mixed() {
    let (f, ku, kv, p, q) = surf(1, 2, true);
    let (_, u) = param_in("u", &ku, &ku.spans(), true);
    let (_, v) = param_in("v", &kv, &kv.spans(), true);
    let a = f.derivative_u().derivative_v().get_point(u, v);
    let b = f.derivative_v().derivative_u().get_point(u, v);
    near3(a, b, "mixed derivatives agree in either order");
    let mut du = f.derivative_u(); for _ in 1..p { du = du.derivative_u() }
    let z = du.derivative_u();
    near3(z.get_point(0.5, 0.5), Point3::new(0.0, 0.0, 0.0), "derivative of a constant direction (u) is zero");
    let mut dv = f.derivative_v(); for _ in 1..q { dv = dv.derivative_v() }
    near3(dv.derivative_v().get_point(0.5, 0.5), Point3::new(0.0, 0.0, 0.0), "derivative of a constant direction (v) is zero");
    reach(0);
}
