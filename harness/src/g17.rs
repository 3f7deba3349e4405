//! G17 the advancing front fills every simple polygon exactly.
use crate::common::*;
use crate::g14::*;
use crate::sym::*;
use geom3d::utils;
use geom3d::Point2;
pub const LIST: &[(&str, fn())] = &[("g17_slide", slide), ("g17_holes", holes)];

pub type Shape = &'static [(f64, f64)];
/// the triangulation's boundary is the polygons, all other edges are shared by two triangles, every triangle is counter-clockwise up to the tolerance
pub fn check_mesh(given: &[Point2], cycles: &[Vec<usize>], v: &[Point2], t: &[u32]) {
    prove(v.len() >= given.len(), "given points are kept");
    for i in 0..given.len() { near(v[i].x, given[i].x, "given points come first"); near(v[i].y, given[i].y, "given points come first"); }
    prove(t.len() % 3 == 0, "indices come in triples");
    for x in t { prove((*x as usize) < v.len(), "indices are valid") }
    let mut edges: Vec<(usize, usize)> = t.chunks(3).flat_map(|c| [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])]).map(|(a, b)| (a as usize, b as usize)).collect();
    for c in t.chunks(3) { le(-1e-6, orient(v[c[0] as usize], v[c[1] as usize], v[c[2] as usize]), "triangles are counter-clockwise") }
    for c in cycles { for i in 0..c.len() { let e = (c[i], c[(i + 1) % c.len()]); match edges.iter().position(|x| *x == e) { Some(k) => { edges.swap_remove(k); } None => prove(false, "every polygon edge belongs to a triangle") } } }
    while let Some((a, b)) = edges.pop() { match edges.iter().position(|x| *x == (b, a)) { Some(k) => { edges.swap_remove(k); } None => prove(false, "every inner edge belongs to two triangles on its two sides") } }
}
/// p[k] slides along a line; the polygon stays simple, and no corner comes closer than a thousandth to being straight without being so
pub fn slider(shape: Shape, tag: &str) -> Vec<Point2> {
    let k = choice(&format!("{tag}vertex"), shape.len()); let d = pick(&format!("{tag}direction"), &[(1.0, 0.0), (0.0, 1.0), (1.0, 2.0)][..if thorough() { 3 } else { 2 }]);
    let s = real(&format!("{tag}s"), -4.0, 4.0);
    shape.iter().enumerate().map(|(i, q)| if i == k { Point2::new(q.0 + s * d.0, q.1 + s * d.1) } else { Point2::new(q.0, q.1) }).collect()
}
pub fn apart(p: &[Point2]) {
    for i in 0..p.len() { for j in 0..i { for k in 0..j { let o = orient(p[i], p[j], p[k]); assume_f(f_any(vec![eq0(o), f_cmp(0.001, o, LE), f_cmp(o, -0.001, LE)])) } } }
}
pub const SHAPES: [Shape; 6] = [
    &[(0., 0.), (1., 0.), (0.5, 1.)],
    &[(0., 0.), (2., 0.), (2., 1.), (0., 1.)],
    &[(0., 0.), (1., -1.), (2., 0.), (1., 2.)],
    &[(0., 0.), (2., 0.), (2., 2.), (1., 0.5), (0., 2.)],
    &[(0., 0.), (2., 0.), (2., 1.), (1., 1.), (1., 2.), (0., 2.)],
    &[(0., 0.), (1., 0.), (2., 0.), (2., 1.), (1., 1.), (0., 1.)],
];
fn slide() {
    let shape = if thorough() { SHAPES[choice("shape", 6)] } else { SHAPES[[0, 1, 3][choice("shape", 3)]] };
    let p = slider(shape, "");
    assume_simple(&p, true, &p); apart(&p);
    let (v, t) = utils::generate_triangular_mesh(&p, &[0, p.len()]);
    check_mesh(&p, &[(0..p.len()).collect()], &v, &t);
    reach(0);
}
fn holes() {
    let outer: Shape = &[(0., 0.), (4., 0.), (4., 3.), (0., 3.)];
    let hole: Shape = &[(1., 1.), (1.5, 2.), (2., 1.)];
    let s = real("s", -1.0, 2.0); let d = pick("direction", if thorough() { &[(1.0, 0.0), (0.0, 1.0), (1.0, 0.5)] } else { &[(1.0, 0.5)] });
    let a: Vec<Point2> = outer.iter().map(|q| Point2::new(q.0, q.1)).collect();
    let b: Vec<Point2> = hole.iter().map(|q| Point2::new(q.0 + s * d.0, q.1 + s * d.1)).collect();
    let p: Vec<Point2> = a.iter().chain(&b).cloned().collect();
    for q in &b { for (x, hi) in [(q.x, 4.0), (q.y, 3.0)] { assume_cmp(0.01, x, LE); assume_cmp(x, hi - 0.01, LE) } }
    let (v, t) = utils::generate_triangular_mesh(&p, &[0, 4, 7]);
    check_mesh(&p, &[(0..4).collect(), (4..7).collect()], &v, &t);
    reach(0);
}
