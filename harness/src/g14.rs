//! G14 ear clipping triangulates every simple polygon exactly.
use crate::common::*;
use crate::sym::*;
use geom3d::utils;
use geom3d::Point2;
pub const LIST: &[(&str, fn())] = &[("g14_3", || run(3)), ("g14_4", || run(4)), ("g14_5", || run(5)), ("g14_6", || run(6)), ("g14_7", || run(7)), ("g14_8", || run(8)), ("g14_bumps", bumps), ("g14_slide", slide)];

pub fn orient(a: Point2, b: Point2, c: Point2) -> f64 { (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x) }
pub fn gt0(x: f64) -> F { f_cmp(0.0, x, LT) }
pub fn lt0(x: f64) -> F { f_cmp(x, 0.0, LT) }
pub fn eq0(x: f64) -> F { f_cmp(x, 0.0, EQ) }
pub fn imp(a: F, b: F) -> F { f_or(f_not(a), b) }
/// s(x) and s(y) are non-zero and of the same sign
fn same(x: f64, y: f64) -> F { f_or(f_all(vec![gt0(x), gt0(y)]), f_all(vec![lt0(x), lt0(y)])) }
/// on the line through a, b, c (which has the point e off it): c lies outside the closed segment ab
fn beyond(a: Point2, b: Point2, c: Point2, e: Point2) -> F { same(orient(a, c, e), orient(b, c, e)) }
/// the closed segments ab and cd have no point in common; `all` are the points of a configuration that is not on one line
pub fn disjoint(a: Point2, b: Point2, c: Point2, d: Point2, all: &[Point2]) -> F {
    let (c1, d1, a1, b1) = (orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b));
    let apart = all.iter().map(|&e| f_all(vec![eq0(c1), eq0(d1), beyond(a, b, c, e), beyond(a, b, d, e), beyond(c, d, a, e), beyond(c, d, b, e)])).collect::<Vec<_>>();
    f_or(f_or(same(c1, d1), same(a1, b1)), f_any(apart))
}
/// edges ab and bc meet only in b
pub fn no_spike(a: Point2, b: Point2, c: Point2, all: &[Point2]) -> F {
    let o = orient(a, b, c);
    f_any(vec![gt0(o), lt0(o)].into_iter().chain(all.iter().map(|&e| same(orient(a, b, e), orient(b, c, e)))))
}
/// p[i] is a corner of the convex hull of p: the ray to p[j] has everything on its left or ahead on it
fn hull_corner(p: &[Point2], i: usize, j: usize) -> F {
    f_all((0..p.len()).filter(|&k| k != i && k != j).map(|k| {
        let o = orient(p[i], p[j], p[k]);
        f_or(gt0(o), f_and(eq0(o), f_any((0..p.len()).filter(|&e| e != i && e != j && e != k).map(|e| same(orient(p[i], p[j], p[e]), orient(p[i], p[k], p[e]))))))
    }))
}
/// assume that p is a simple polygon, counter-clockwise or clockwise: the orientation is the turn at a corner of the convex hull
pub fn assume_simple(p: &[Point2], ccw: bool, all: &[Point2]) {
    let n = p.len();
    if n == 3 { let o = orient(p[0], p[1], p[2]); assume_f(if ccw { gt0(o) } else { lt0(o) }); return }
    let mut turns = vec![];
    for i in 0..n { for j in 0..n { if i != j { let o = orient(p[(i + n - 1) % n], p[i], p[(i + 1) % n]); turns.push(f_and(hull_corner(p, i, j), if ccw { gt0(o) } else { lt0(o) })) } } }
    assume_f(f_any(turns));
    for i in 0..n { let (a, b, c) = (p[i], p[(i + 1) % n], p[(i + 2) % n]); assume_f(no_spike(a, b, c, all)) }
    for i in 0..n { for j in i + 2..n { if i == 0 && j == n - 1 { continue } assume_f(disjoint(p[i], p[i + 1], p[j], p[(j + 1) % n], all)) } }
}
/// The triangles fill the region bounded by the given cycles (outer counter-clockwise, holes clockwise): every triangle is
/// counter-clockwise, and the boundaries of the triangles add up to the boundary of the region, where an edge counts as the chain of pieces
/// between the points lying on it.  (Then every point is covered as often as the boundary winds around it: once in the region, never outside.)
pub fn check_fill(points: &[Point2], cycles: &[Vec<usize>], t: &[u32], proper: bool) {
    let n = points.len();
    prove(t.len() % 3 == 0, "indices come in triples");
    for x in t { prove((*x as usize) < n, "indices are valid") }
    let mut chain: Vec<(usize, usize)> = vec![];
    fn add(chain: &mut Vec<(usize, usize)>, e: (usize, usize)) { if e.0 == e.1 { return } match chain.iter().position(|x| *x == (e.1, e.0)) { Some(i) => { chain.swap_remove(i); } None => chain.push(e) } }
    for c in t.chunks(3) {
        let (a, b, c) = (c[0] as usize, c[1] as usize, c[2] as usize);
        let o = orient(points[a], points[b], points[c]);
        if proper { lt(0.0, o, "triangles are counter-clockwise") } else { le(0.0, o, "triangles are not clockwise") }
        for e in [(a, b), (b, c), (c, a)] { add(&mut chain, e) }
    }
    for c in cycles { for i in 0..c.len() { add(&mut chain, (c[(i + 1) % c.len()], c[i])) } }
    // what is left must cancel once edges are cut at the points on them
    let mut rest = vec![]; let mut todo = chain;
    while let Some((a, b)) = todo.pop() {
        let cut = (0..n).find(|&v| v != a && v != b && branch_f(f_and(eq0(orient(points[a], points[b], points[v])), f_any((0..n).filter(|&e| e != a && e != b && e != v).map(|e| same(orient(points[a], points[v], points[e]), orient(points[v], points[b], points[e])))))));
        match cut { Some(v) => todo.extend([(a, v), (v, b)]), None => add(&mut rest, (a, b)) }
    }
    prove(rest.is_empty(), "the triangles fill exactly the polygon");
}
pub fn lattice_points(n: usize, x_order: bool) -> Vec<Point2> {
    set_mode(LATTICE);
    let p: Vec<Point2> = (0..n).map(|i| Point2::new(real(&format!("x{i}"), -1000.0, 1000.0), real(&format!("y{i}"), -1000.0, 1000.0))).collect();
    set_points(&p, x_order); p
}
/// no three points on a line
pub fn general_position(p: &[Point2]) { for i in 0..p.len() { for j in 0..i { for k in 0..j { assume_ne(orient(p[i], p[j], p[k]), 0.0) } } } }
fn run(n: usize) {
    let p = lattice_points(n, false);
    if n == 8 { general_position(&p) }
    assume_simple(&p, true, &p);
    let (v, c) = utils::compute_vertex_convexity(&p);
    let t = utils::trianglate_polygon(&p, v, c);
    check_fill(&p, &[(0..n).collect()], &t, true);
    reach(0);
}
/// Eight vertices: a convex quadrilateral with a triangular bump on two sides, from any start vertex.  Cutting the bumps makes vertices collinear.
fn bumps() {
    let p = lattice_points(8, false);
    let s = choice("start", 8);
    let v = |i: usize| p[(i + s) % 8];
    // corners and bump tips are in convex position
    let hull: Vec<Point2> = [0, 1, 3, 4, 5, 7].iter().map(|&i| v(i)).collect();
    for i in 0..6 { for j in i + 1..6 { for k in j + 1..6 { assume_f(gt0(orient(hull[i], hull[j], hull[k]))) } } }
    for (a, q, b) in [(0, 2, 3), (4, 6, 7)] { assume_f(eq0(orient(v(a), v(q), v(b)))); for k in [1, 4] { assume_f(same(orient(v(a), v(q), v((a + k) % 8)), orient(v(a), v(b), v((a + k) % 8)))); assume_f(same(orient(v(q), v(b), v((a + k) % 8)), orient(v(a), v(b), v((a + k) % 8)))) } }
    assume_simple(&p, true, &p);
    let (w, c) = utils::compute_vertex_convexity(&p);
    let t = utils::trianglate_polygon(&p, w, c);
    check_fill(&p, &[(0..8).collect()], &t, true);
    reach(0);
}
type I = (i64, i64);
fn cr(a: I, b: I, c: I) -> i64 { (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0) }
fn on(a: I, b: I, c: I) -> bool { cr(a, b, c) == 0 && c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1) }
fn meets(a: I, b: I, c: I, d: I) -> bool { on(a, b, c) || on(a, b, d) || on(c, d, a) || on(c, d, b) || (cr(a, b, c).signum() * cr(a, b, d).signum() < 0 && cr(c, d, a).signum() * cr(c, d, b).signum() < 0) }
fn is_simple(p: &[I]) -> bool {
    let n = p.len();
    (0..n).all(|i| (0..i).all(|j| {
        let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
        if (j + 1) % n == i { !on(a, b, c) && !on(c, d, b) } else if (i + 1) % n == j { !on(a, b, d) && !on(c, d, a) } else { !meets(a, b, c, d) }
    }))
}
/// the k-th of a fixed sequence of simple counter-clockwise polygons of 7 to 12 vertices on a small grid, many of them collinear
pub fn shape(k: usize) -> Vec<I> {
    let mut s = (k as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15);
    let mut r = |n: usize| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); ((s >> 33) % n as u64) as usize };
    let n = 7 + k % 6; let g = if n > 9 { 8 } else { 6 };
    loop {
        let mut p: Vec<I> = vec![];
        while p.len() < n { let q = (r(g) as i64, r(g) as i64); if !p.contains(&q) { p.push(q) } }
        for _ in 0..400 {
            if is_simple(&p) { let w: i64 = (0..n).map(|i| p[i].0 * p[(i + 1) % n].1 - p[i].1 * p[(i + 1) % n].0).sum(); if w < 0 { p.reverse() } return p }
            let (i, j) = (r(n), r(n)); p[i.min(j)..=i.max(j)].reverse();
        }
    }
}
/// Concave polygons of 7 to 12 vertices, one vertex of which is moved over every lattice position that keeps the polygon simple.
fn slide() {
    set_mode(LINEAR);
    let shape: Vec<(f64, f64)> = shape(choice("shape", if thorough() { 600 } else { 60 })).iter().map(|q| (q.0 as f64, q.1 as f64)).collect();
    let n = shape.len(); let k = choice("vertex", n);
    let p: Vec<Point2> = (0..n).map(|i| if i == k { Point2::new(real("x", -10.0, 90.0), real("y", -10.0, 90.0)) } else { Point2::new(shape[i].0 * 10.0, shape[i].1 * 10.0) }).collect();
    let area = (0..n).fold(0.0, |a, i| a + (p[i].x * p[(i + 1) % n].y - p[i].y * p[(i + 1) % n].x));
    assume_lt(0.0, area);
    for i in 0..n { assume_f(no_spike(p[i], p[(i + 1) % n], p[(i + 2) % n], &p)) }
    for i in 0..n { for j in i + 2..n { if i == 0 && j == n - 1 { continue } assume_f(disjoint(p[i], p[i + 1], p[j], p[(j + 1) % n], &p)) } }
    let (v, c) = utils::compute_vertex_convexity(&p);
    let t = utils::trianglate_polygon(&p, v, c);
    check_fill(&p, &[(0..n).collect()], &t, true);
    reach(0);
}
