//! The same properties on larger structures: many knots, vertices, points or triangles, most of them concrete, so that the parameter, the
//! queried point and a few coordinates remain symbolic.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, BezierCurve, Curve, Polyline};
use geom3d::surface::{BSplineSurface, BezierSurface, Surface};
use geom3d::{utils, Grid, Model, Point2, Point3, TriangleMesh};
pub const LIST: &[(&str, fn())] = &[
    ("g01_long", bezier), ("g02_long", basis), ("g03_long", derivative), ("g04_long", insertion), ("g05_long", knots), ("g06_long", project), ("g08_long", arc), ("g12_long", surface),
    ("g12_long_bezier", bezier_surface), ("g18_long", search), ("g18_ties", ties), ("g21_long", obj), ("g21_long_cloud", cloud), ("g22_long", stl)];

/// Clamped concrete knot vectors with 6 to 10 interior knots: simple, with every multiplicity up to the degree, uneven.
fn many(p: usize) -> Knots {
    let mut inner: Vec<f64> = vec![];
    let (lo, hi) = match choice("knots", 3) {
        0 => { inner.extend((1..=7).map(|i| i as f64)); (0.0, 8.0) }
        1 => { for i in 1..=6usize { for _ in 0..1 + (i * 5 + p) % p.max(1).min(3) { inner.push(i as f64 * 0.5 - 2.0) } } (-2.0, 1.5) }
        _ => { inner.extend([-2.75, -2.5, -2.5 + 0.0625, -1.0, 4.0, 4.5, 16.0, 16.25, 17.0, 40.0]); (-3.0, 64.0) }
    };
    let mut k = vec![lo; p + 1]; k.extend(inner); k.extend(vec![hi; p + 1]);
    set_exact();
    Knots::concrete(k)
}
/// control points with one symbolic coordinate
fn points(n: usize) -> Vec<Point3> { (0..n).map(|i| Point3::new(real(&format!("p{i}"), -100.0, 100.0), (i * i % 7) as f64 + 0.5, 3.0 - 2.0 * (i % 5) as f64)).collect() }
fn sum(b: &[f64], p: &[Point3]) -> Point3 { b.iter().zip(p).fold(Point3::new(0., 0., 0.), |e, (b, p)| e + *p * *b) }

fn bezier() {
    let n = 8 + choice("points", 5);
    let p = points(n); let u = real("u", 0.0, 1.0);
    let c = BezierCurve { control_points: p.clone() };
    let b: Vec<f64> = (0..n).map(|k| crate::g01::bern(n - 1, k, u)).collect();
    near3(c.get_point(u), sum(&b, &p), "curve point is the Bernstein blend");
    near3(c.get_point(0.0), p[0], "starts at the first control point"); near3(c.get_point(1.0), p[n - 1], "ends at the last control point");
    reach(0);
}
fn basis() {
    let p = 1 + choice("degree", 5);
    let kn = many(p); let n = kn.k.len() - p - 1;
    let (s, u) = param_in("u", &kn, &kn.spans(), true);
    let b = kn.vec().bspline_basis(p, u); let e = cox(&kn, p, s, u);
    prove(b.len() == n, "one basis value per control point");
    let mut t = 0.0;
    for i in 0..n { near(b[i], e[i], "basis value equals the Cox-de Boor recursion"); t = t + b[i] }
    near(t, 1.0, "basis values sum to one");
    let cps = points(n);
    let c = BSplineCurve { control_points: cps.clone(), knots: kn.vec(), degree: p as u8 };
    near3(c.get_point(u), sum(&e, &cps), "curve point is the basis-weighted combination of the control points");
    near3(c.get_point(kn.start()), cps[0], "starts at its first control point"); near3(c.get_point(kn.end()), cps[n - 1], "ends at its last control point");
    reach(0);
}
fn derivative() {
    let p = 1 + choice("degree", 4);
    let kn = many(p); let n = kn.k.len() - p - 1;
    let spans = kn.spans(); let s = spans[choice("span", spans.len())];
    let (a, b) = (kn.k[s], kn.k[s + 1]);
    let (u, h) = (real("u", a, b), real("h", a - b, b - a));
    if s != spans[spans.len() - 1] { assume_lt(u, b); assume_lt(u + h, b) } else { assume_le(u + h, b) }
    assume_le(a, u + h);
    let f = BSplineCurve { control_points: points(n), knots: kn.vec(), degree: p as u8 };
    let mut t = f.get_point(u); let mut d = f.derivative(); let mut hk = 1.0;
    for k in 1..=p {
        prove(d.degree() == p - k && d.control_points.len() == n - k && d.knots.len() == n - k + p - k + 1, "degree, control points and knots of the k-th derivative");
        hk = hk * h; t = t + d.get_point(u) * (hk / fact(k));
        if k < p { d = d.derivative() }
    }
    near3(f.get_point(u + h), t, "Taylor expansion with the derivative curves reproduces the curve");
    reach(0);
}
fn insertion() {
    let p = 1 + choice("degree", 3);
    let kn = many(p); let n = kn.k.len() - p - 1;
    let c = BSplineCurve { control_points: points(n), knots: kn.vec(), degree: p as u8 };
    let spans = kn.spans();
    // inside a span, or at the knot where it starts
    let i = choice("at", spans.len());
    let (a, b) = (kn.k[spans[i]], kn.k[spans[i] + 1]);
    let at_knot = i > 0 && choice("at knot", 2) == 1;
    let t = if at_knot { a } else { let t = real("t", a, b); assume_le(a + 0.001, t); assume_le(t, b - 0.001); t };
    // compared nearby, where the control points change, and at both ends
    let near_spans: Vec<usize> = (0..spans.len()).filter(|&j| j.abs_diff(i) <= 2 || j == 0 || j + 1 == spans.len()).map(|j| spans[j]).collect();
    let (s, u) = param_in("u", &kn, &near_spans, true);
    let before = c.get_point(u);
    let _ = s;
    match choice("operation", 3) {
        0 => {
            let mut d = c.clone(); d.add_knot(t);
            prove(d.control_points.len() == n + 1 && d.knots.len() == n + p + 2, "one control point and one knot more");
            for w in d.knots.windows(2) { le(w[0], w[1], "knots stay sorted") }
            near3(d.get_point(u), before, "inserting a knot keeps every curve point");
        }
        1 => {
            let mut l = c.clone(); let r = l.split(t);
            for x in [&l, &r] { prove(x.knots.len() == x.control_points.len() + p + 1, "knot count equals control points + degree + 1") }
            eq(l.knots.range().1, t, "the left piece ends at the split parameter"); eq(r.knots.range().0, t, "the right piece starts there");
            if u < t { near3(l.get_point(u), before, "the left piece reproduces the curve") } else { near3(r.get_point(u), before, "the right piece reproduces the curve") }
        }
        _ => {
            let b = c.to_piecewise_bezier();
            prove(b.len() == spans.len(), "one Bezier piece per non-empty knot span");
            let x = real("x", 0.0, 1.0); assume_lt(x, 1.0);
            near3(b[i].get_point(x), c.get_point(kn.k[spans[i]] + (kn.k[spans[i] + 1] - kn.k[spans[i]]) * x), "a Bezier piece reproduces its span");
        }
    }
    reach(0);
}
fn knots() {
    let p = choice("degree", 4);
    let kn = many(p.max(1)); let v = kn.vec(); let n = v.len();
    let u = real("u", kn.start(), kn.end());
    let i = v.span_index(u);
    prove(i + 1 < n, "the span has an end knot");
    lt(v[i], v[i + 1], "the span is not empty"); le(v[i], u, "the span starts at or before the parameter"); le(u, v[i + 1], "the span ends at or after the parameter");
    prove_f(f_or(f_cmp(u, v[i + 1], LT), f_cmp(v[i + 1], kn.end(), EQ)), "only the last span contains its end");
    for i in 0..n { prove(v.multiplicity(i) == kn.k.iter().filter(|x| **x == kn.k[i]).count(), "multiplicity counts equal knots") }
    let mut w = v.clone(); let pos = w.add_knot(u);
    prove(w.len() == n + 1 && pos <= n, "inserting adds one knot at the reported position"); eq(w[pos], u, "the new knot is at the reported position");
    for i in 1..=n { le(w[i - 1], w[i], "inserting keeps the vector sorted") }
    let s = v.normalize();
    for i in 0..n { near(s[i], (kn.k[i] - kn.start()) / (kn.end() - kn.start()), "normalising is affine") }
    reach(0);
}
/// Vertices whose segments have integer lengths: a zigzag, a loop that comes back, one with repeated vertices.
fn paths() -> Vec<Point3> {
    let v: &[(f64, f64, f64)] = [
        &[(0., 0., 0.), (3., 4., 0.), (6., 0., 0.), (9., 4., 0.), (12., 0., 0.), (15., 4., 0.)][..],
        &[(0., 0., 0.), (8., 0., 0.), (8., 6., 0.), (0., 6., 0.), (0., 1., 0.), (4., 4., 0.), (4., 2., 0.)][..],
        &[(0., 0., 0.), (0., 0., 0.), (5., 0., 0.), (5., 0., 0.), (5., 5., 0.), (5., 5., 0.), (5., 5., 2.), (1., 5., 2.), (1., 5., 2.)][..]][choice("path", 3)];
    v.iter().map(|p| Point3::new(p.0, p.1, p.2)).collect()
}
/// the distance to no vertex and no segment is smaller than that to q
fn nearest(v: &[Point3], p: Point3, q: Point3) {
    let m = "no point of the curve is nearer than the projected one";
    let d = (q - p).length_squared();
    for x in v { le(d, (*x - p).length_squared() + 1e-6, m) }
    for i in 0..v.len() - 1 {
        let (ab, ap) = (v[i + 1] - v[i], p - v[i]);
        let (t, l) = (ap.dot(ab), ab.length_squared());
        if l == 0.0 { continue }
        prove_f(f_any(vec![f_cmp(t, 0.0, LE), f_cmp(l, t, LE), f_cmp(d * l, ap.length_squared() * l - t * t + 1e-6 * l, LE)]), m);
    }
}
fn project() {
    set_timeout(2000);
    let v = paths(); let n = v.len() - 1;
    // along lines across the plane of the path
    let p = match choice("line", if thorough() { 5 } else { 3 }) { 0 => Point3::new(real("x", -3.0, 18.0), 2.5, 1.0), 1 => Point3::new(4.25, real("y", -3.0, 9.0), 0.0), 2 => { let s = real("s", -3.0, 15.0); Point3::new(s, 7.0 - s, 0.5) }, 3 => Point3::new(real("x", -3.0, 18.0), 5.5, -1.0), _ => Point3::new(2.0, 3.0, real("z", -5.0, 5.0)) };
    if choice("curve", 2) == 0 {
        let c = Polyline::new(v.clone());
        let u = c.project(p);
        prove(is_symbolic(u) || !u.is_nan(), "the parameter is a number");
        le(0.0, u, "parameter at least 0"); le(u, 1.0, "parameter at most 1");
        nearest(&v, p, c.get_point(u));
    } else {
        let mut k = vec![-1.0, -1.0]; for i in 1..n { k.push(i as f64 * i as f64 * 0.5) } k.extend([n as f64 * n as f64 * 0.5; 2]);
        let (lo, hi) = (k[0], k[k.len() - 1]);
        let c = BSplineCurve { control_points: v.clone(), knots: geom3d::KnotVector(k), degree: 1 };
        let u = c.project(p);
        prove(is_symbolic(u) || !u.is_nan(), "the parameter is a number");
        le(lo, u, "parameter at least the range start"); le(u, hi, "parameter at most the range end");
        nearest(&v, p, c.get_point(u));
    }
    reach(0);
}
fn arc() {
    let v = paths(); let n = v.len() - 1;
    let c = Polyline::new(v.clone());
    let l: Vec<f64> = (0..n).map(|i| v[i].distance(v[i + 1])).collect(); let total: f64 = l.iter().sum();
    for i in 0..n { near(c.segment_lengths[i], l[i], "segment length is the distance of its vertices") }
    near(c.length, total, "length is the sum of the segment lengths");
    let mut s = 0.0; let i = choice("segment", n); for x in &l[..i] { s = s + x }
    if l[i] == 0.0 { near3_tol(c.get_point(s / total), v[i], 1e-6, "the vertex is at its arc length"); reach(0); return }
    let a = real("a", s, s + l[i]);
    near3_tol(c.get_point(a / total), v[i] + (v[i + 1] - v[i]) * ((a - s) / l[i]), 1e-6, "the point lies at arc length t times the total length");
    reach(0);
}
fn surface() {
    let (p, q) = pick("degrees", &[(1usize, 2usize), (2, 1), (3, 2), (2, 3)]);
    set_exact();
    let cl = |p: usize, inner: &[f64], lo: f64, hi: f64| { let mut k = vec![lo; p + 1]; k.extend(inner); k.extend(vec![hi; p + 1]); Knots::concrete(k) };
    let (ku, kv) = pick("knots", &[(cl(p, &[1.0, 2.0, 2.5, 4.0], 0.0, 8.0), cl(q, &[-1.0], -2.0, 1.0)), (cl(p, &[-0.5], -1.0, 0.0), cl(q, &[1.0, 1.5, 2.0, 3.0], 0.5, 5.0)), (cl(p, &vec![1.0; p], 0.0, 2.0), cl(q, &[1.0, 2.0, 3.0], 0.0, 4.0))]);
    let (n, m) = (ku.k.len() - p - 1, kv.k.len() - q - 1);
    let pts: Vec<Point3> = (0..n * m).map(|i| Point3::new((i / m) as f64, (i % m) as f64 * 2.0, real(&format!("z{i}"), -100.0, 100.0))).collect();
    let s = BSplineSurface::new(Grid::from_vec(pts.clone(), m), (ku.vec(), kv.vec()), (p, q));
    let (su, u) = param_in("u", &ku, &ku.spans(), true); let (sv, v) = param_in("v", &kv, &kv.spans(), true);
    let (bu, bv) = (cox(&ku, p, su, u), cox(&kv, q, sv, v));
    let mut e = Point3::new(0., 0., 0.);
    for i in 0..n { for j in 0..m { e = e + pts[i * m + j] * (bu[i] * bv[j]) } }
    near3(s.get_point(u, v), e, "surface point is the tensor-product blend");
    reach(0);
}
fn bezier_surface() {
    let (n, m) = pick("size", &[(2usize, 7usize), (7, 2), (6, 5), (5, 6)]);
    let pts: Vec<Point3> = (0..n * m).map(|i| Point3::new((i / m) as f64, (i % m) as f64 * 2.0, real(&format!("z{i}"), -100.0, 100.0))).collect();
    let s = BezierSurface::new(Grid::from_vec(pts.clone(), m));
    let (u, v) = (real("u", 0.0, 1.0), real("v", 0.0, 1.0));
    let mut e = Point3::new(0., 0., 0.);
    for i in 0..n { for j in 0..m { e = e + pts[i * m + j] * (crate::g01::bern(n - 1, i, u) * crate::g01::bern(m - 1, j, v)) } }
    near3(s.get_point(u, v), e, "surface point is the tensor-product blend");
    reach(0);
}
/// Searches among many concrete points for any point of a line, ties included; orientation of a long polygon.
fn search() {
    let t = real("t", -4.0, 12.0);
    let p = match choice("line", 3) { 0 => Point3::new(t, 1.0, 0.5), 1 => Point3::new(1.5, t, 0.0), _ => Point3::new(t, 6.0 - t, t) };
    let v: Vec<Point3> = (0..12).map(|i: i32| Point3::new((i * 5 % 7) as f64, (i * 3 % 8) as f64, (i % 3) as f64)).chain([Point3::new(5., 3., 1.), Point3::new(0., 0., 0.)]).collect();
    let d: Vec<f64> = v.iter().map(|x| (*x - p).length_squared()).collect();
    let check = |i: usize| { prove(i < v.len(), "the index is valid"); for j in 0..v.len() { if j < i { lt(d[i], d[j], "the first index of minimal distance") } else { le(d[i], d[j], "no point is nearer") } } };
    match choice("what", 3) {
        0 => check(utils::find_nearest_point(&v, p)),
        1 => { let c = pick("cols", &[2usize, 7]); let (x, y) = utils::find_nearest_point_in_grid(&Grid::from_vec(v.clone(), c), p); prove(y < c, "the column is valid"); check(x * c + y) }
        _ => {
            // a comb with many teeth, one corner anywhere along a line
            let mut q: Vec<Point2> = vec![]; for i in 0..6 { q.push(Point2::new(i as f64 * 2.0, 4.0)); q.push(Point2::new(i as f64 * 2.0 + 1.0, 0.0)) } q.push(Point2::new(12.0, 4.0)); q.push(Point2::new(6.0, real("y", -50.0, 50.0)));
            if choice("reverse", 2) == 1 { q.reverse() }
            let a = (0..q.len()).fold(0.0, |a, i| a + q[i].perp_dot(q[(i + 1) % q.len()]));
            if utils::is_polygon_counter_clockwise(&q) { lt(0.0, a, "counter-clockwise polygons have positive area") } else { le(a, 0.0, "other polygons do not") }
        }
    }
    reach(0);
}
/// Integer points, so that equal distances are equal to the last bit: the first of them is found.
fn ties() {
    set_mode(LINEAR);
    let t = real("t", -4.0, 12.0);
    let p = match choice("line", 3) { 0 => Point3::new(t, 1.0, 0.0), 1 => Point3::new(2.0, t, 0.0), _ => Point3::new(t, 6.0 - t, 1.0) };
    let n = pick("n", &[4usize, 6, 12]);
    let v: Vec<Point3> = (0..n as i32).map(|i| Point3::new((i * 5 % 7) as f64, (i * 3 % 8) as f64, (i % 3) as f64)).rev().collect();
    let d: Vec<f64> = v.iter().map(|x| (p - *x).length_squared()).collect();
    let mut first = 0; for j in 1..n { if d[j] < d[first] { first = j } }
    prove(utils::find_nearest_point(&v, p) == first, "the first index of minimal distance");
    for c in [1, 2, n / 2, n] { let (x, y) = utils::find_nearest_point_in_grid(&Grid::from_vec(v.clone(), c), p); prove(y < c && x * c + y == first, "the first index of minimal distance in a grid") }
    reach(0);
}
fn big(n: usize) -> TriangleMesh {
    let mut v: Vec<Point3> = (0..n).map(|i| Point3::new(i as f64, (i % 17) as f64, -0.5)).collect();
    for i in [0, n / 2, n - 1] { v[i].x = real(&format!("x{i}"), 0.0, f64::MAX) }
    TriangleMesh { vertices: v, normals: vec![], triangles: (0..n as u32).flat_map(|i| [i, (i + 1) % n as u32, (i + 7) % n as u32]).collect() }
}
/// Many vertices and faces: indices stay right beyond every small size.
fn obj() {
    crate::g21::setup();
    let (n, faces) = pick("size", &[(300usize, 1usize), (40, 9), (1100, 2)]);
    let parts: Vec<TriangleMesh> = (0..faces).map(|_| big(n)).collect();
    let mut m = Model::<TriangleMesh>::new(); for p in &parts { m.add_face(p.clone()) }
    prove(m.save_as_obj("big.obj").is_ok(), "saving succeeds");
    crate::g21::check(&crate::g21::read("big.obj"), &parts);
    reach(0);
}
fn cloud() {
    crate::g21::setup();
    let mut p: Vec<Point3> = (0..700).map(|i| Point3::new(i as f64 * 0.125, -1.0 / (1.0 + i as f64), 1e-7 * i as f64)).collect();
    for i in [0, 255, 256, 699] { p[i].y = real(&format!("y{i}"), 0.0, f64::MAX) }
    prove(geom3d::points::save_point_cloud(&p, "big.xyz").is_ok(), "saving succeeds");
    match geom3d::points::load_point_cloud("big.xyz") { Ok(q) => { prove(q.len() == p.len(), "as many points"); crate::g21::same_all(&q, &p, "the same points in the same order") } Err(_) => prove(false, "loading succeeds") }
    reach(0);
}
fn stl() {
    crate::g21::setup();
    let (n, faces) = pick("size", &[(300usize, 1usize), (70000, 1), (50, 8)]);
    let parts: Vec<TriangleMesh> = (0..faces).map(|_| big(n)).collect();
    let mut m = Model::<TriangleMesh>::new(); for p in &parts { m.add_face(p.clone()) }
    prove(m.save_as_stl("big.stl").is_ok(), "saving succeeds");
    crate::g22::check("big.stl", &parts);
    reach(0);
}
