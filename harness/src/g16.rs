//! G16 trimming meshes exactly the bounded region.
use crate::common::*;
use crate::g14::*;
use crate::g17::{apart, slider, Shape, SHAPES};
use crate::g20::{line, segment};
use crate::sym::*;
use geom3d::curve::Circle;
use geom3d::surface::{BSplineSurface, Cylinder, EdgeLoop, Plane, TrimmedSurface};
use geom3d::{Face, Grid, KnotVector, Point2, Point3, TriangleMesh, Vec3};
pub const LIST: &[(&str, fn())] = &[("g16_plane", plane), ("g16_plane_holes", plane_holes), ("g16_empty", empty), ("g16_cylinder", cylinder), ("g16_cylinder_hole", cylinder_hole), ("g16_cylinder_slant", cylinder_slant), ("g16_bspline", bspline), ("g16_bspline_hole", bspline_hole)];

fn half() -> f64 { 0.5 }
fn setup() { rand::source::set(half); }
fn files() -> usize { std::fs::read_dir(".").map(|d| d.count()).unwrap_or(0) }
/// Meshing the face; nothing appears in the current directory.
fn mesh<S: geom3d::surface::Surface>(surface: S, bounds: Vec<EdgeLoop>) -> TriangleMesh {
    let m = TrimmedSurface { surface, bounds }.get_triangle_mesh();
    prove(files() == 0, "meshing writes no files");
    m
}
/// Frames with exactly representable axes.
fn frame() -> Plane { frames(choice("frame", 4)) }
fn frames(k: usize) -> Plane {
    let f = [(Vec3::X, Vec3::Y, Vec3::Z), (Vec3::Y, Vec3::Z, Vec3::X), (-Vec3::Y, Vec3::X, Vec3::Z), (Vec3::Z, Vec3::Y, -Vec3::X)][k];
    Plane { origin: Point3::new(1.0, -2.0, 0.5), normal: f.2, u_axis: f.0, v_axis: f.1 }
}
fn lift(f: &Plane, p: &[Point2]) -> Vec<Point3> { p.iter().map(|q| f.origin + f.u_axis * q.x + f.v_axis * q.y).collect() }
/// A loop of line edges; with `split`, the first edge is made of two pieces.
fn bound(v: &[Point3]) -> EdgeLoop { EdgeLoop { edges: (0..v.len()).map(|i| line(v[i], v[(i + 1) % v.len()])).collect() } }
fn check_plane(f: &Plane, given: &[Point2], cycles: &[Vec<usize>], m: &TriangleMesh) {
    prove(m.vertices.len() >= given.len(), "the loop points are kept");
    let e = lift(f, given);
    for i in 0..given.len() { near3(m.vertices[i], e[i], "the loop points come first, in order") }
    let v: Vec<Point2> = m.vertices.iter().map(|x| { let w = *x - f.origin; Point2::new(w.dot(f.u_axis), w.dot(f.v_axis)) }).collect();
    for x in &m.vertices { near((*x - f.origin).dot(f.normal), 0.0, "vertices lie in the plane") }
    check_fill(&v, cycles, &m.triangles, true);
}
fn plane() {
    setup();
    let shape = if thorough() { SHAPES[choice("shape", 6)] } else { SHAPES[[0, 2, 3][choice("shape", 3)]] };
    let p = slider(shape, "");
    assume_simple(&p, true, &p); apart(&p); far(&p);
    let f = frame();
    let m = mesh(Plane { ..frame_of(&f) }, vec![bound(&lift(&f, &p))]);
    check_plane(&f, &p, &[(0..p.len()).collect()], &m);
    reach(0);
}
fn frame_of(f: &Plane) -> Plane { Plane { origin: f.origin, normal: f.normal, u_axis: f.u_axis, v_axis: f.v_axis } }
/// corners are further apart than the tolerance
fn far(p: &[Point2]) { for i in 0..p.len() { for j in 0..i { assume_f(f_cmp(1e-3, (p[i] - p[j]).length_squared(), LE)) } } }
const HOLES: [Shape; 2] = [&[(1., 1.), (1.5, 2.), (2., 1.)], &[(0., 0.), (0.5, 0.25), (0.25, -0.25)]];
fn plane_holes() {
    setup();
    let outer: Shape = &[(0., 0.), (4., 0.), (4., 3.), (0., 3.)];
    let s = real("s", -1.0, 4.0); let row = if thorough() { [0.5, 1.5, 2.25][choice("row", 3)] } else { 1.5 };
    let a: Vec<Point2> = outer.iter().map(|q| Point2::new(q.0, q.1)).collect();
    let b: Vec<Point2> = HOLES[0].iter().map(|q| Point2::new(q.0, q.1)).collect();
    let c: Vec<Point2> = HOLES[1].iter().map(|q| Point2::new(q.0 + s, q.1 + row)).collect();
    let (mut loops, mut all, mut cycles) = (vec![], vec![], vec![]);
    let f = if thorough() { frame() } else { frames(1) };
    // the loops may come in any order
    let order = if thorough() { [[0, 1, 2], [2, 0, 1], [1, 2, 0]][choice("order", 3)] } else { [[0, 1, 2], [2, 0, 1]][choice("order", 2)] };
    for k in order { let l = [&a, &b, &c][k]; cycles.push((all.len()..all.len() + l.len()).collect::<Vec<_>>()); all.extend(l.iter().cloned()); loops.push(bound(&lift(&f, l))) }
    for q in &c { assume_cmp(0.01, q.x, LE); assume_cmp(q.x, 3.99, LE); }
    for i in 0..3 { for j in 0..3 { assume_f(disjoint(b[i], b[(i + 1) % 3], c[j], c[(j + 1) % 3], &all)) } }
    let rev: Vec<Point2> = b.iter().rev().cloned().collect(); assume_f(f_not(crate::g15::inside(&rev, c[0])));
    apart(&all);
    let m = mesh(frame_of(&f), loops);
    check_plane(&f, &all, &cycles, &m);
    reach(0);
}
fn empty() {
    setup();
    let f = frame(); let x = real("x", -1.0, 1.0);
    let point = Point3::new(x, 0.0, 0.0);
    let loops = match choice("loops", 3) { 0 => vec![], 1 => vec![EdgeLoop { edges: vec![] }], _ => vec![EdgeLoop { edges: vec![line(point, point)] }] };
    let m = match choice("surface", 3) {
        0 => mesh(f, loops),
        1 => mesh(Cylinder { origin: Point3::ZERO, axis: Vec3::Z, ref_dir: Vec3::X, radius: 1.0 }, loops),
        _ => mesh(square(), loops),
    };
    prove(m.triangles.is_empty(), "a face without usable loops gives an empty mesh");
    reach(0);
}
/// the same points as the given, in the same or in the opposite order; the triangles form a surface bounded by the loop
fn check_patch(given: &[Point3], holes: &[usize], m: &TriangleMesh) -> usize {
    let n = given.len();
    prove(m.vertices.len() >= n, "the loop points are kept");
    let same = |a: Point3, b: Point3| !is_symbolic_point(a - b) && (a - b).length_squared() < 1e-12;
    let straight = (0..n).all(|i| same(m.vertices[i], given[i]));
    let reversed = (0..n).all(|i| same(m.vertices[i], given[n - 1 - i]));
    prove(straight || reversed, "the loop points come first");
    prove(m.triangles.len() % 3 == 0, "indices come in triples");
    for x in &m.triangles { prove((*x as usize) < m.vertices.len(), "indices are valid") }
    let mut edges: Vec<(usize, usize)> = m.triangles.chunks(3).flat_map(|c| [(c[0], c[1]), (c[1], c[2]), (c[2], c[0])]).map(|(a, b)| (a as usize, b as usize)).collect();
    let mut rest = vec![];
    while let Some((a, b)) = edges.pop() { match edges.iter().position(|x| *x == (b, a)) { Some(k) => { edges.swap_remove(k); } None => rest.push((a, b)) } }
    // what remains is the loops, all in the same direction
    let mut loops: Vec<(usize, usize)> = vec![]; let mut ends = holes.to_vec(); ends.insert(0, 0);
    if !straight { ends = ends.iter().rev().map(|i| n - i).collect() }
    for w in ends.windows(2) { for i in w[0]..w[1] { loops.push((i, if i + 1 < w[1] { i + 1 } else { w[0] })) } }
    let mut back: Vec<(usize, usize)> = loops.iter().map(|(a, b)| (*b, *a)).collect();
    rest.sort(); loops.sort(); back.sort();
    prove(rest == loops || rest == back, "the mesh is bounded by the loops and nothing else");
    n
}
fn is_symbolic_point(p: Point3) -> bool { let big = |x: f64| is_symbolic(x); big(p.x) || big(p.y) || big(p.z) }
/// A cylinder at any height; a patch between two heights and two angles.
fn cylinder_setup(t: f64) -> (Cylinder, Circle, Circle) {
    let axis = Vec3::Z; let c = Cylinder { origin: Point3::new(0.0, 0.0, 0.0), axis, ref_dir: Vec3::X, radius: 2.0 };
    let circle = |z: f64| Circle { center: Point3::new(0.0, 0.0, z), axis, ref_dir: Vec3::X, radius: 2.0 };
    let h = real("height", 0.5, 4.0);
    (c, circle(t), circle(t + h))
}
fn check_cylinder(c: &Cylinder, m: &TriangleMesh, n: usize, lo: f64, hi: f64) {
    for v in &m.vertices[n..] {
        near(v.x * v.x + v.y * v.y, c.radius * c.radius, "vertices lie on the cylinder");
        le(lo - 1e-6, v.z, "vertices are not below the loop"); le(v.z, hi + 1e-6, "vertices are not above the loop");
    }
}
fn cylinder() {
    setup();
    let t = real("z", -20.0, 20.0);
    let (c, low, high) = cylinder_setup(t);
    let (a, b) = [(0.0, 1.0), (0.5, 2.0), (5.5, 7.0)][choice("angles", 3)];
    let (lo, hi) = (low.center.z, high.center.z);
    let at = |k: &Circle, x: f64| geom3d::curve::Curve::get_point(k, x);
    let (p, q, r, s) = (at(&low, a), at(&low, b), at(&high, b), at(&high, a));
    let copy = |k: &Circle| Circle { center: k.center, axis: k.axis, ref_dir: k.ref_dir, radius: k.radius };
    let arc = |k: &Circle, x: f64, y: f64| { let mut e = segment(Box::new(copy(k)), (x, y)); e.tolerance = 0.2; e };
    let mut edges = if choice("sense", 2) == 0 { vec![arc(&low, a, b), line(q, r), arc(&high, b, a), line(s, p)] } else { vec![line(p, s), arc(&high, a, b), line(r, q), arc(&low, b, a)] };
    let s = choice("start", 2); edges.rotate_left(s);
    let l = EdgeLoop { edges }; let given = l.to_polygon();
    let m = mesh(Cylinder { origin: c.origin, axis: c.axis, ref_dir: c.ref_dir, radius: c.radius }, vec![l]);
    let n = check_patch(&given, &[given.len()], &m);
    check_cylinder(&c, &m, n, lo, hi);
    reach(0);
}
/// one corner of the loop at any height of its line
fn cylinder_slant() {
    setup();
    let t = real("z", -20.0, 20.0);
    let (c, low, high) = cylinder_setup(t);
    let (lo, hi) = (low.center.z, high.center.z);
    let f = real("f", 0.0, 1.0); let k = choice("corner", 5);
    let mut h = [0.0, 0.0, 0.5, 1.0, 1.0]; h[k] = f;
    // another corner keeps the extent
    if k < 2 { assume_cmp(f, 0.25, LE) } else if k > 2 { assume_cmp(0.75, f, LE) }
    let mut v: Vec<Point3> = (0..5).map(|i| geom3d::surface::Surface::get_point(&c, lo + (hi - lo) * h[i], [1.0, 0.0, -0.25, 0.0, 1.0][i])).collect();
    if choice("sense", 2) == 1 { v.reverse() }
    let m = mesh(Cylinder { origin: c.origin, axis: c.axis, ref_dir: c.ref_dir, radius: c.radius }, vec![bound(&v)]);
    let n = check_patch(&v, &[5], &m);
    check_cylinder(&c, &m, n, lo, hi);
    reach(0);
}
/// a four-cornered hole inside a quarter patch
fn cylinder_hole() {
    setup();
    let t = real("z", -20.0, 20.0);
    let (c, low, high) = cylinder_setup(t);
    let (lo, hi) = (low.center.z, high.center.z);
    let at = |x: f64, y: f64| geom3d::surface::Surface::get_point(&c, lo + (hi - lo) * x, y);
    // seen from inside, outer bound counter-clockwise, hole clockwise
    let outer = [at(0.0, 0.0), at(1.0, 0.0), at(1.0, 0.5), at(1.0, 1.0), at(0.0, 1.0), at(0.0, 0.5)];
    let x = real("x", 0.1, if thorough() { 0.5 } else { 0.12 });
    let hole = [at(x, 0.3), at(x, 0.7), at(x + 0.4, 0.7), at(x + 0.4, 0.3)];
    let (mut outer, mut hole) = (outer, hole);
    if choice("sense", 2) == 1 { outer.reverse(); hole.reverse() }
    let given: Vec<Point3> = outer.iter().chain(&hole).cloned().collect();
    let m = mesh(Cylinder { origin: c.origin, axis: c.axis, ref_dir: c.ref_dir, radius: c.radius }, vec![bound(&outer), bound(&hole)]);
    let n = check_patch(&given, &[6, 10], &m);
    check_cylinder(&c, &m, n, lo, hi);
    reach(0);
}
/// the unit square of parameters mapped to a parallelogram
fn square() -> BSplineSurface<Point3> {
    let g = [(0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0)].iter().map(|(u, v)| Point3::new(1.0, 2.0, 0.0) + Vec3::new(4.0, 0.0, 3.0) * *u + Vec3::new(0.0, 5.0, 0.0) * *v).collect();
    BSplineSurface { control_points: Grid::from_vec(g, 2), knots: (KnotVector(vec![0., 0., 1., 1.]), KnotVector(vec![0., 0., 1., 1.])), degree: (1, 1) }
}
fn at(u: f64, v: f64) -> Point3 { Point3::new(1.0, 2.0, 0.0) + Vec3::new(4.0, 0.0, 3.0) * u + Vec3::new(0.0, 5.0, 0.0) * v }
fn check_square(m: &TriangleMesh, n: usize) {
    // the patch is flat, so its mesh fills the bounded region without folds when all triangles turn the same way
    let q: Vec<Point2> = m.vertices.iter().map(|w| Point2::new((w.x - 1.0) / 4.0, (w.y - 2.0) / 5.0)).collect();
    let turns: Vec<f64> = m.triangles.chunks(3).map(|t| orient(q[t[0] as usize], q[t[1] as usize], q[t[2] as usize])).collect();
    prove_f(f_any([f_all(turns.iter().map(|o| f_cmp(-1e-6, *o, LE))), f_all(turns.iter().map(|o| f_cmp(*o, 1e-6, LE)))]), "the mesh has no folds");
    for w in &m.vertices[n..] {
        let d = *w - Point3::new(1.0, 2.0, 0.0);
        near(d.x * 3.0 - d.z * 4.0, 0.0, "vertices lie on the surface");
        le(-1e-6, d.x, "vertices are inside the range"); le(d.x, 4.0 + 1e-6, "vertices are inside the range"); le(-1e-6, d.y, "vertices are inside the range"); le(d.y, 5.0 + 1e-6, "vertices are inside the range");
    }
}
fn bspline() {
    setup();
    let u = real("u", 0.0, 1.0);
    let mut p = vec![at(0.125, 0.25), at(0.875, 0.125), at(u, 0.75)];
    if choice("sense", 2) == 1 { p.reverse() }
    let m = mesh(square(), vec![bound(&p)]);
    let n = check_patch(&p, &[3], &m);
    check_square(&m, n);
    reach(0);
}
fn bspline_hole() {
    setup();
    let u = real("u", 0.05, 0.7);
    let mut p = [at(0.0, 0.0), at(1.0, 0.0), at(1.0, 1.0), at(0.0, 1.0)];
    let mut h = [at(u, 0.25), at(u, 0.5), at(u + 0.25, 0.25)];
    if choice("sense", 2) == 1 { p.reverse(); h.reverse() }
    let given: Vec<Point3> = p.iter().chain(&h).cloned().collect();
    let m = mesh(square(), vec![bound(&p), bound(&h)]);
    let n = check_patch(&given, &[4, 7], &m);
    check_square(&m, n);
    reach(0);
}
