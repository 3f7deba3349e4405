//! G20 edge loops become closed polygons without duplicate points.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{Curve, CurveSegment, Line, Polyline};
use geom3d::surface::EdgeLoop;
use geom3d::{Point3};
pub const LIST: &[(&str, fn())] = &[("g20_lines", lines), ("g20_reversed", reversed), ("g20_empty", empty), ("g20_curved", curved), ("g20_gaps", gaps), ("g20_close", close), ("g20_many", many)];

pub fn segment(curve: Box<dyn Curve>, range: (f64, f64)) -> CurveSegment<Box<dyn Curve>> { CurveSegment { curve, parameter_range: range, tolerance: 0.01, parameter_division: 16 } }
pub fn line(a: Point3, b: Point3) -> CurveSegment<Box<dyn Curve>> { segment(Box::new(Line { origin: a, direction: b - a }), (0.0, 1.0)) }
/// Reference: consecutive equal points and the closing point dropped (`same` tells which corners are equal by construction)
fn expect(v: &[Point3], same: &[usize]) -> Vec<Point3> {
    let mut r: Vec<usize> = vec![];
    for i in 0..v.len() { if r.last().map(|&l| same[l] != same[i]).unwrap_or(true) { r.push(i) } }
    if !r.is_empty() && same[r[0]] == same[*r.last().unwrap()] { r.pop(); }
    r.into_iter().map(|i| v[i]).collect()
}
fn compare(p: &[Point3], e: &[Point3]) {
    prove(p.len() == e.len(), "every genuine corner once, no duplicates, no closing point");
    for i in 0..e.len() { near3(p[i], e[i], "corners in edge order") }
}
/// corner i is corner same[i] again, or new
fn corners(n: usize) -> (Vec<Point3>, Vec<usize>) {
    let mut v: Vec<Point3> = vec![]; let mut id: Vec<usize> = vec![];
    for i in 0..n {
        let reuse = choice(&format!("corner{i}"), if i == 0 { 1 } else { 2 + (i >= 2) as usize });
        match reuse {
            1 => { v.push(v[i - 1]); id.push(id[i - 1]) }
            2 => { v.push(v[0]); id.push(id[0]) }
            _ => {
                // a new corner, away from every other
                let x = Point3::new(i as f64 * 3.0 + real(&format!("x{i}"), -1.0, 1.0), real(&format!("y{i}"), -10.0, 10.0), real(&format!("z{i}"), -10.0, 10.0));
                v.push(x); id.push(i);
            }
        }
    }
    (v, id)
}
fn lines() {
    let n = 1 + choice("edges", if thorough() { 5 } else { 4 });
    let (v, id) = corners(n);
    // edges from corner to corner; the last closes the loop
    let edges = (0..n).map(|i| line(v[i], v[(i + 1) % n])).collect();
    let mut w = vec![]; let mut wid = vec![];
    for i in 0..n { for j in [i, (i + 1) % n] { w.push(v[j]); wid.push(id[j]) } }
    compare(&EdgeLoop { edges }.to_polygon(), &expect(&w, &wid));
    reach(0);
}
/// Edges given by ranges that run backwards, and polylines.
fn reversed() {
    let (a, b, c) = (p3("a", 1.0), p3("b", 1.0) + Point3::new(5., 0., 0.), p3("c", 1.0) + Point3::new(0., 7., 0.));
    let back = segment(Box::new(Line { origin: b, direction: a - b }), (1.0, 0.0));
    let pl = segment(Box::new(Polyline::new(vec![b, c])), (0.0, 1.0));
    let short = segment(Box::new(Line { origin: c + (a - c) * -1.0, direction: a - c }), (1.0, 2.0));
    compare(&EdgeLoop { edges: vec![back, pl, short] }.to_polygon(), &[a, b, c]);
    reach(0);
}
fn empty() {
    prove(EdgeLoop { edges: vec![] }.to_polygon().is_empty(), "an empty loop gives an empty polygon");
    // a loop of one degenerate edge has no corner left
    let p = p3("p", 10.0);
    prove(EdgeLoop { edges: vec![line(p, p)] }.to_polygon().is_empty(), "a loop shrunk to a point gives an empty polygon");
    reach(0);
}
/// A curved edge (a parabola from (-1, 1) to (1, 1)) and its chord: the curve's points in order, joined without duplicates.
#[derive(Debug)]
struct Parabola(f64, Point3);
impl Curve for Parabola {
    fn get_point(&self, u: f64) -> Point3 { self.1 + Point3::new(u, self.0 * u * u, 0.0) }
    fn project(&self, _: Point3) -> f64 { 0.0 }
}
fn curved() {
    let o = p3("o", 10.0); let k = real("k", 0.005, 0.04);
    let c = || segment(Box::new(Parabola(k, o)), (-1.0, 1.0));
    let (s, e) = (c().curve.get_point(-1.0), c().curve.get_point(1.0));
    let first = choice("first", 2) == 0;
    let edges = if first { vec![c(), line(e, s)] } else { vec![line(e, s), c()] };
    let mut p = EdgeLoop { edges }.to_polygon();
    if !first { prove(p.len() >= 2, "both ends"); near3(p[0], e, "starts at the first edge's start"); p.remove(0); p.push(e) }
    prove(p.len() >= 2, "both ends of the curve");
    near3(p[0], s, "the curve's start"); near3(p[p.len() - 1], e, "the curve's end, the closing point dropped");
    for q in &p { let d = *q - o; near(d.y, k * d.x * d.x, "corners lie on the curve") }
    for i in 1..p.len() { lt(p[i - 1].x, p[i].x, "corners run along the curve") }
    reach(if p.len() > 2 { 1 } else { 0 });
}

/// Edges whose ends do not meet: every end is a corner.
fn gaps() {
    let n = 1 + choice("edges", if thorough() { 5 } else { 4 });
    let mut w: Vec<Point3> = vec![]; let mut edges = vec![];
    for i in 0..n {
        // a start of its own, or the end of the edge before
        let joined = i > 0 && choice(&format!("joined{i}"), 2) == 1;
        let mut new = |s: &str, k: usize| Point3::new(k as f64 * 3.0 + real(&format!("{s}{i}.x"), -1.0, 1.0), real(&format!("{s}{i}.y"), -10.0, 10.0), real(&format!("{s}{i}.z"), -10.0, 10.0));
        let a = if joined { w[w.len() - 1] } else { new("a", 2 * i) };
        let b = new("b", 2 * i + 1);
        edges.push(line(a, b));
        if !joined { w.push(a) }
        w.push(b);
    }
    compare(&EdgeLoop { edges }.to_polygon(), &w);
    reach(0);
}
/// Corners near each other, but clearly apart.
fn close() {
    let at = choice("place", 4);
    let c = [Point3::new(0., 0., 0.), Point3::new(4., 0., 1.), Point3::new(5., 3., 0.), Point3::new(1., 4., 0.)];
    let o = p3("o", 10.0);
    let d = Point3::new(real("d.x", -0.01, 0.01), real("d.y", -0.01, 0.01), real("d.z", -0.01, 0.01));
    assume(d.length_squared() >= 2.5e-7);
    let mut v: Vec<Point3> = vec![];
    for i in 0..4 { v.push(o + c[i]); if i == at { v.push(o + c[i] + d) } }
    let edges = (0..5).map(|i| line(v[i], v[(i + 1) % 5])).collect();
    compare(&EdgeLoop { edges }.to_polygon(), &v);
    reach(0);
}
/// A long loop of lines, one corner anywhere.
fn many() {
    let n = if thorough() { 60 } else { 24 };
    let at = choice("moved", if thorough() { n } else { 6 }) * if thorough() { 1 } else { 4 };
    let p = Point3::new(real("x", -1.0, 1.0), real("y", -1.0, 1.0), real("z", -50.0, 50.0));
    let v: Vec<Point3> = (0..n).map(|i| { let t = i as f64 / n as f64 * std::f64::consts::TAU; let c = Point3::new(40.0 * t.cos(), 40.0 * t.sin(), (i % 5) as f64); if i == at { c + p } else { c } }).collect();
    // written from corner to corner, every other edge backwards or with another range
    let kind = choice("kind", 3);
    let edges = (0..n).map(|i| { let (a, b) = (v[i], v[(i + 1) % n]); match if i % 2 == 0 { 0 } else { kind } {
        0 => line(a, b),
        1 => segment(Box::new(Line { origin: b, direction: a - b }), (1.0, 0.0)),
        _ => segment(Box::new(Line { origin: a * 1.5 - b * 0.5, direction: (b - a) * 0.25 }), (2.0, 6.0)),
    } }).collect();
    compare(&EdgeLoop { edges }.to_polygon(), &v);
    reach(0);
}
