//! G15 polygons with holes are bridged and triangulated exactly.
use crate::common::thorough;
use crate::g14::*;
use crate::sym::*;
use geom3d::utils;
use geom3d::Point2;
pub const LIST: &[(&str, fn())] = &[("g15_slide", slide), ("g15_shapes", shapes), ("g15_33", || run(&[3, 3], false)), ("g15_43", || run(&[4, 3], true)), ("g15_34", || run(&[3, 4], true)), ("g15_333", || run(&[3, 3, 3], true))];

/// x(a) <= x(h) < x(b) or x(b) <= x(h) < x(a), and the edge passes above h
fn above(a: Point2, b: Point2, h: Point2) -> F {
    let up = f_all(vec![f_cmp(a.x, h.x, LE), f_cmp(h.x, b.x, LT), lt0(orient(a, b, h))]);
    let down = f_all(vec![f_cmp(b.x, h.x, LE), f_cmp(h.x, a.x, LT), gt0(orient(a, b, h))]);
    f_or(up, down)
}
pub fn xor(a: F, b: F) -> F { f_or(f_and(a, f_not(b)), f_and(f_not(a), b)) }
/// h, off the boundary, lies inside p: an odd number of edges passes above it
pub fn inside(p: &[Point2], h: Point2) -> F {
    if p.len() == 3 { return f_all((0..3).map(|i| gt0(orient(p[i], p[(i + 1) % 3], h)))) }
    (0..p.len()).fold(f_const(false), |f, i| xor(f, above(p[i], p[(i + 1) % p.len()], h)))
}
/// disjoint simple polygons: the first counter-clockwise, the others clockwise inside it and outside each other
pub fn assume_holes(poly: &[&[Point2]], all: &[Point2]) {
    for (k, p) in poly.iter().enumerate() { assume_simple(p, k == 0, all) }
    for k in 0..poly.len() { for l in k + 1..poly.len() {
        if k == 0 { assume_f(inside(poly[0], poly[l][0])) }
        let (a, b) = (poly[k], poly[l]);
        for i in 0..a.len() { for j in 0..b.len() { assume_f(disjoint(a[i], a[(i + 1) % a.len()], b[j], b[(j + 1) % b.len()], all)) } }
        if k > 0 { for (p, q) in [(a, b), (b, a)] { let rev: Vec<Point2> = p.iter().rev().cloned().collect(); assume_f(f_not(inside(&rev, q[0]))) } }
    } }
}
fn run(sizes: &[usize], general: bool) {
    let n: usize = sizes.iter().sum();
    let p = lattice_points(n, true);
    let mut starts = vec![0]; for s in sizes { starts.push(starts.last().unwrap() + s) }
    if general { general_position(&p); for i in 0..n { for j in 0..i { assume_ne(p[i].x, p[j].x) } } }
    let poly: Vec<&[Point2]> = (0..sizes.len()).map(|k| &p[starts[k]..starts[k + 1]]).collect();
    assume_holes(&poly, &p);
    let mut cycle = utils::merge_polygons(&p, &starts);
    let cycles: Vec<Vec<usize>> = (0..sizes.len()).map(|k| (starts[k]..starts[k + 1]).collect()).collect();
    check_merge(&cycle.iter().cloned().collect::<Vec<_>>(), &cycles);
    let c = utils::find_concave_vertices(&p, &mut cycle);
    let t = utils::trianglate_polygon(&p, cycle, c);
    check_fill(&p, &cycles, &t, true);
    reach(0);
}
/// one cycle: the polygons' own edges and one bridge per hole, walked once in each direction
fn check_merge(cycle: &[usize], cycles: &[Vec<usize>]) {
    let n: usize = cycles.iter().map(|c| c.len()).sum();
    prove(cycle.len() == n + 2 * (cycles.len() - 1), "every vertex once and both ends of every bridge once more");
    let mut e: Vec<(usize, usize)> = (0..cycle.len()).map(|i| (cycle[i], cycle[(i + 1) % cycle.len()])).collect();
    for c in cycles { for i in 0..c.len() { let x = (c[i], c[(i + 1) % c.len()]); match e.iter().position(|y| *y == x) { Some(k) => { e.swap_remove(k); } None => prove(false, "every polygon is traversed completely in its own order") } } }
    prove(e.len() == 2 * (cycles.len() - 1), "the rest of the cycle are bridges");
    for x in &e { prove(e.contains(&(x.1, x.0)), "bridges are walked in both directions") }
}

/// Two holes in a concave polygon: one hole slides over every lattice position where it lies inside and clear of everything else.
fn slide() {
    set_mode(LINEAR);
    let outers: [&[(f64, f64)]; 3] = [
        &[(0., 0.), (300., 0.), (300., 300.), (0., 300.)],
        &[(0., 0.), (300., 10.), (280., 300.), (160., 310.), (150., 120.), (140., 290.), (5., 300.)],
        &[(0., 0.), (400., 0.), (390., 200.), (200., 210.), (210., 110.), (100., 100.), (110., 400.), (10., 390.)]];
    let seconds: [&[(f64, f64)]; 2] = [&[(0., 0.), (7., 41.), (33., 13.)], &[(0., 0.), (10., 30.), (40., 30.), (40., 0.)]];
    let outer = outers[if thorough() { choice("outer", 3) } else { 1 }];
    let first: &[(f64, f64)] = &[(40., 30.), (20., 80.), (90., 60.)];
    let second = seconds[if thorough() { choice("hole", 2) } else { 0 }];
    let r = if thorough() { choice("start", 3) } else { 1 };
    let (tx, ty) = (real("tx", 0.0, 400.0), if thorough() { real("ty", 0.0, 400.0) } else { [33.0, 80.0, 150.0, 230.0][choice("row", 4)] });
    let pt = |v: &(f64, f64)| Point2::new(v.0, v.1);
    let a: Vec<Point2> = outer.iter().map(pt).collect();
    let b: Vec<Point2> = (0..3).map(|i| pt(&first[(i + r) % 3])).collect();
    let c: Vec<Point2> = (0..second.len()).map(|i| { let v = second[(i + r) % second.len()]; Point2::new(v.0 + tx, v.1 + ty) }).collect();
    // the polygons in any order
    let hs = [b, c]; let order = pick("order", &[[0usize, 1, 2], [0, 2, 1], [1, 0, 2], [2, 1, 0]]);
    let (h, k) = (hs[0].clone(), hs[1].clone());
    let cyc: Vec<&Vec<Point2>> = order.iter().map(|&i| if i == 0 { &a } else { &hs[i - 1] }).collect();
    let p: Vec<Point2> = cyc.iter().flat_map(|c| c.iter().cloned()).collect();
    let starts = [0, cyc[0].len(), cyc[0].len() + cyc[1].len(), p.len()];
    for (x, y) in [(&a, &h), (&a, &k), (&h, &k)] { for i in 0..x.len() { for j in 0..y.len() { assume_f(disjoint(x[i], x[(i + 1) % x.len()], y[j], y[(j + 1) % y.len()], &p)) } } }
    assume_f(inside(&a, h[0])); assume_f(inside(&a, k[0]));
    for (x, y) in [(&h, &k), (&k, &h)] { let rev: Vec<Point2> = x.iter().rev().cloned().collect(); assume_f(f_not(inside(&rev, y[0]))) }
    let mut cycle = utils::merge_polygons(&p, &starts);
    let cycles: Vec<Vec<usize>> = (0..3).map(|k| (starts[k]..starts[k + 1]).collect()).collect();
    check_merge(&cycle.iter().cloned().collect::<Vec<_>>(), &cycles);
    let c = utils::find_concave_vertices(&p, &mut cycle);
    let t = utils::trianglate_polygon(&p, cycle, c);
    check_fill(&p, &cycles, &t, true);
    reach(0);
}
/// A hole slides over every lattice position inside polygons of a fixed sequence.
fn shapes() {
    set_mode(LINEAR);
    let k = choice("shape", if thorough() { 18 } else { 2 });
    let a: Vec<Point2> = shape(k).iter().map(|q| Point2::new(q.0 as f64 * 60.0, q.1 as f64 * 60.0)).collect();
    let (tx, ty) = (real("tx", 0.0, 480.0), real("ty", 0.0, 480.0));
    let h: Vec<Point2> = [vec![(0., 0.), (7., 41.), (33., 13.)], vec![(13., 0.), (0., 20.), (10., 20.), (20., 30.)]][k % 2].iter().map(|v: &(f64, f64)| Point2::new(v.0 + tx, v.1 + ty)).collect();
    let first = choice("first", 2) == 1;
    let cyc = if first { [&h, &a] } else { [&a, &h] };
    let p: Vec<Point2> = cyc.iter().flat_map(|c| c.iter().cloned()).collect();
    let starts = [0, cyc[0].len(), p.len()];
    for i in 0..a.len() { for j in 0..h.len() { assume_f(disjoint(a[i], a[(i + 1) % a.len()], h[j], h[(j + 1) % h.len()], &p)) } }
    assume_f(inside(&a, h[0])); let rev: Vec<Point2> = h.iter().rev().cloned().collect(); for q in &a { assume_f(f_not(inside(&rev, *q))) }
    let mut cycle = utils::merge_polygons(&p, &starts);
    let cycles: Vec<Vec<usize>> = (0..2).map(|k| (starts[k]..starts[k + 1]).collect()).collect();
    check_merge(&cycle.iter().cloned().collect::<Vec<_>>(), &cycles);
    let c = utils::find_concave_vertices(&p, &mut cycle);
    let t = utils::trianglate_polygon(&p, cycle, c);
    check_fill(&p, &cycles, &t, true);
    reach(0);
}
