//! G18 planar predicates and nearest searches.
use crate::common::*;
use crate::sym::*;
use geom3d::utils::{self, Point};
use geom3d::{Grid, Point2, Point3};
pub const LIST: &[(&str, fn())] = &[("g18_orientation", orientation), ("g18_inside", inside), ("g18_segment2", segment2), ("g18_segment3", segment3), ("g18_nearest", nearest), ("g18_nearest_grid", nearest_grid), ("g18_range", range)];

fn orientation() {
    let n = 1 + choice("n", if thorough() { 8 } else { 6 });
    let p: Vec<Point2> = (0..n).map(|i| p2(&format!("p{i}"), 100.0)).collect();
    let mut area = 0.0;
    for i in 0..n { area = area + p[i].perp_dot(p[(i + 1) % n]) }
    let b = utils::is_polygon_counter_clockwise(&p);
    if b { lt(0.0, area, "reported counter-clockwise: the signed area is positive"); reach(0) } else { le(area, 0.0, "reported not counter-clockwise: the signed area is not positive"); reach(1) }
}
fn inside() {
    let (a, b, c, p) = (p2("a", 100.0), p2("b", 100.0), p2("c", 100.0), p2("p", 100.0));
    assume_lt(0.0, (b - a).perp_dot(c - a));
    let (x, y, z) = ((b - a).perp_dot(p - a), (c - b).perp_dot(p - b), (a - c).perp_dot(p - c));
    // decided up to a cross product of 1e-7, the library's tolerance
    let inside = |e: f64| f_all(vec![f_cmp(e, x, LE), f_cmp(e, y, LE), f_cmp(e, z, LE)]);
    let outside = |e: f64| f_any(vec![f_cmp(x, e, LT), f_cmp(y, e, LT), f_cmp(z, e, LT)]);
    if p.is_inside_triangle(a, b, c) { prove_f(inside(-1e-7), "reported inside: in the closed triangle"); reach(0) } else { prove_f(outside(0.0), "reported outside: not in the closed triangle"); reach(1) }
}
fn smallest(d: f64, ap2: f64, bp2: f64, dot: f64, l2: f64, cross2: f64, msg: &str) {
    le(0.0, d, "a distance is not negative");
    let d2 = d * d;
    // |p - (a + t ab)|^2 = ap2 - 2 t dot + t^2 l2; over [0,1] the minimum is at the clamped foot
    prove_f(f_any(vec![
        f_all(vec![f_cmp(dot, 0.0, LE), f_cmp(d2, ap2 + 1e-9, LE), f_cmp(ap2 - 1e-9, d2, LE)]),
        f_all(vec![f_cmp(l2, dot, LE), f_cmp(d2, bp2 + 1e-9, LE), f_cmp(bp2 - 1e-9, d2, LE)]),
        f_all(vec![f_cmp(0.0, dot, LE), f_cmp(dot, l2, LE), f_cmp(0.0, l2, LT), f_cmp(d2 * l2, cross2 + 1e-9 * l2, LE), f_cmp(cross2 - 1e-9 * l2, d2 * l2, LE)]),
    ]), msg);
}
fn segment2() {
    let a = p2("a", 10.0); let p = p2("p", 10.0); let b = if choice("equal", 2) == 1 { a } else { p2("b", 10.0) };
    let d = p.distance_to_line_segment(a, b);
    prove(is_symbolic(d) || !d.is_nan(), "the distance is a number");
    let (ap, ab) = (p - a, b - a);
    let cr = ap.x * ab.y - ap.y * ab.x;
    smallest(d, ap.length_squared(), (p - b).length_squared(), ap.x * ab.x + ap.y * ab.y, ab.length_squared(), cr * cr, "smallest distance to the points of the segment (2D)");
    reach(0);
}
fn segment3() {
    let a = Point3::new(1.0, -2.0, 0.5); let p = p3("p", 10.0);
    let b = match choice("b", 3) { 0 => a, 1 => a + Point3::new(1., 2., -2.) * real("l", -5.0, 5.0), _ => Point3::new(real("bx", -5.0, 5.0), real("by", -5.0, 5.0), 0.5) };
    let d = utils::distance_to_line_segment(a, b, p);
    prove(is_symbolic(d) || !d.is_nan(), "the distance is a number");
    let (ap, ab) = (p - a, b - a);
    let c = Point3::new(ap.y * ab.z - ap.z * ab.y, ap.z * ab.x - ap.x * ab.z, ap.x * ab.y - ap.y * ab.x);
    smallest(d, ap.x * ap.x + ap.y * ap.y + ap.z * ap.z, (p - b).length_squared(), ap.x * ab.x + ap.y * ab.y + ap.z * ab.z, ab.length_squared(), c.x * c.x + c.y * c.y + c.z * c.z, "smallest distance to the points of the segment (3D)");
    reach(0);
}
/// n points whose squared distances to the origin of the search are arbitrary
fn cloud(n: usize) -> (Vec<Point3>, Point3, Vec<f64>) {
    let p = p3("p", 10.0);
    let v: Vec<Point3> = (0..n).map(|i| p3(&format!("v{i}"), 10.0)).collect();
    let d = v.iter().map(|x| { let e = *x - p; e.x * e.x + e.y * e.y + e.z * e.z }).collect();
    (v, p, d)
}
fn nearest() {
    set_timeout(2000);
    let n = 1 + choice("n", if thorough() { 5 } else { 4 });
    let (v, p, d) = cloud(n);
    let i = utils::find_nearest_point(&v, p);
    prove(i < n, "the index is valid");
    for j in 0..n { if j < i { lt(d[i], d[j], "the first index of minimal distance") } else { le(d[i], d[j], "no point is nearer") } }
    reach(0);
}
fn nearest_grid() {
    set_timeout(2000);
    let (r, c) = pick("size", if thorough() { &[(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)] } else { &[(1, 1), (1, 3), (3, 1), (2, 2)] });
    let (v, p, d) = cloud(r * c);
    let (x, y) = utils::find_nearest_point_in_grid(&Grid::from_vec(v, c), p);
    prove(x < r && y < c, "the index is valid");
    let i = x * c + y;
    for j in 0..r * c { if j < i { lt(d[i], d[j], "the first index of minimal distance") } else { le(d[i], d[j], "no point is nearer") } }
    reach(0);
}
fn range() {
    let n = 1 + choice("n", 5);
    let v: Vec<(usize, f64)> = (0..n).map(|i| (i, real(&format!("v{i}"), -1e6, 1e6))).collect();
    let (lo, hi) = utils::get_min_max_by_key(&v, |x| x.1);
    for x in &v { le(lo, x.1, "the minimum is a lower bound"); le(x.1, hi, "the maximum is an upper bound") }
    prove_f(f_any(v.iter().map(|x| f_cmp(lo, x.1, EQ))), "the minimum is attained"); prove_f(f_any(v.iter().map(|x| f_cmp(hi, x.1, EQ))), "the maximum is attained");
    let (a, b, x) = (real("a", -100.0, 100.0), real("b", -100.0, 100.0), real("x", -300.0, 300.0));
    let y = utils::clamp_in_range(x, (a, b));
    let inr = |y: f64| f_any(vec![f_all(vec![f_cmp(a, y, LE), f_cmp(y, b, LE)]), f_all(vec![f_cmp(b, y, LE), f_cmp(y, a, LE)])]);
    prove_f(inr(y), "clamping lands in the range, in either order");
    prove_f(f_any(vec![f_cmp(y, x, EQ), f_all(vec![f_cmp(x, y, LT), f_any(vec![f_cmp(y, a, EQ), f_cmp(y, b, EQ)])]), f_all(vec![f_cmp(y, x, LT), f_any(vec![f_cmp(y, a, EQ), f_cmp(y, b, EQ)])])]), "a value moves only to the nearer end");
    if branch_f(inr(x)) { eq(y, x, "a value in the range is unchanged"); reach(0) } else { reach(1) }
    let t = real("t", -2.0, 3.0);
    near(utils::range_at((a, b), t), a * (1.0 - t) + b * t, "ratio along a range");
}
