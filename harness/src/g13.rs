//! G13 surface patch meshes.
use crate::common::*;
use crate::sym::*;
use geom3d::surface::{BSplineSurface, Surface, SurfacePatch};
use geom3d::{Face, Grid, KnotVector, Point2, Point3, Vec3};
pub const LIST: &[(&str, fn())] = &[("g13_grid", grid), ("g13_normals", normals), ("g13_undefined", undefined), ("g13_pole", pole)];

/// A bilinear surface with symbolic coefficients and given normals.
#[derive(Debug)]
struct Test { c: [Point3; 4], normals: Vec<Vec3> }
impl Surface for Test {
    fn get_point(&self, u: f64, v: f64) -> Point3 { self.c[0] + self.c[1] * u + self.c[2] * v + self.c[3] * (u * v) }
    fn get_normals(&self, _p: &[Point2]) -> Vec<Vec3> { self.normals.clone() }
}
fn grid() {
    // all small divisions, and long thin patches
    let (most, long) = if thorough() { (9, 40) } else { (5, 17) };
    let mut d: Vec<(usize, usize)> = (0..most * most).map(|i| (1 + i / most, 1 + i % most)).collect();
    for n in most + 1..=long { for k in 1..=2 { d.push((n, k)); d.push((k, n)) } }
    let (nu, nv) = pick("div", &d);
    let r = |n: &str| (real(&format!("{n}0"), -10.0, 10.0), real(&format!("{n}1"), -10.0, 10.0));
    let (ur, vr) = (r("u"), r("v"));
    let c = [p3("c0", 10.0), p3("c1", 10.0), p3("c2", 10.0), p3("c3", 10.0)];
    let patch = SurfacePatch { surface: Test { c, normals: vec![] }, parameter_range: (ur, vr), parameter_division: (nu, nv) };
    let m = patch.get_triangle_mesh();
    prove(m.vertices.len() == (nu + 1) * (nv + 1), "one vertex per grid point");
    let g = patch.get_point_grid();
    prove(g.rows() == nu + 1 && g.cols() == nv + 1, "grid size");
    for i in 0..=nu { for j in 0..=nv {
        let (u, v) = (ur.0 + (ur.1 - ur.0) * (i as f64 / nu as f64), vr.0 + (vr.1 - vr.0) * (j as f64 / nv as f64));
        let e = patch.surface.get_point(u, v);
        near3(m.vertices[i * (nv + 1) + j], e, "vertex is the surface point at its uniformly divided parameters");
        near3(g[i][j], e, "grid point is the surface point at its uniformly divided parameters");
    } }
    let corner = |u, v| patch.surface.get_point(u, v);
    near3(m.vertices[0], corner(ur.0, vr.0), "first corner"); near3(m.vertices[(nu + 1) * (nv + 1) - 1], corner(ur.1, vr.1), "last corner");
    prove(m.normals.is_empty(), "no normals when the surface supplies none");
    prove(m.triangles.len() == 6 * nu * nv && m.triangle_count() == 2 * nu * nv, "two triangles per cell");
    // every directed edge of the parameter plane is used at most once, cells are covered exactly once
    let mut cover = vec![0; nu * nv];
    for t in m.triangles.chunks(3) {
        for x in t { prove((*x as usize) < m.vertices.len(), "indices are valid") }
        let p: Vec<(i64, i64)> = t.iter().map(|x| ((*x as usize / (nv + 1)) as i64, (*x as usize % (nv + 1)) as i64)).collect();
        let area = (p[1].0 - p[0].0) * (p[2].1 - p[0].1) - (p[1].1 - p[0].1) * (p[2].0 - p[0].0);
        prove(area == 1, "every triangle is half a cell wound like the parameter plane");
        let (r, c) = (p.iter().map(|x| x.0).min().unwrap(), p.iter().map(|x| x.1).min().unwrap());
        prove(p.iter().all(|x| x.0 - r <= 1 && x.1 - c <= 1), "a triangle stays in one cell");
        // which half: bit set of corners used
        cover[r as usize * nv + c as usize] += p.iter().map(|x| 1 << (4 * ((x.0 - r) * 2 + x.1 - c))).sum::<i64>();
    }
    // the two triangles of a cell share one diagonal and use each other corner once
    for c in cover { let u: Vec<i64> = (0..4).map(|k| c >> (4 * k) & 15).collect(); prove((u[0] == 1 && u[3] == 1 && u[1] == 2 && u[2] == 2) || (u[0] == 2 && u[3] == 2 && u[1] == 1 && u[2] == 1), "each cell is covered exactly once") }
    reach(0);
}
fn undefined() {
    let (nu, nv) = pick("div", if thorough() { &[(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)] } else { &[(1, 1), (2, 1), (1, 2), (2, 2)] });
    let (rows, cols) = (nu + 1, nv + 1);
    let nan: Vec<bool> = { let c = choice("nan", 1 << (rows * cols)); (0..rows * cols).map(|i| c >> i & 1 == 1).collect() };
    let n: Vec<Vec3> = (0..rows * cols).map(|i| if nan[i] { let mut v = Vec3::new(0.0, 0.0, 1.0); if i % 2 == 0 { v.x = f64::NAN } else { v = Vec3::new(f64::NAN, f64::NAN, f64::NAN) } v } else { p3(&format!("n{i}"), 1.0) }).collect();
    let z = Point3::new(0., 0., 0.);
    let patch = SurfacePatch { surface: Test { c: [z, p3("a", 10.0), p3("b", 10.0), z], normals: n.clone() }, parameter_range: ((0., 1.), (0., 1.)), parameter_division: (nu, nv) };
    let m = patch.get_triangle_mesh();
    prove(m.normals.len() == rows * cols, "one normal per vertex");
    for i in 0..rows * cols {
        let (r, c) = (i / cols, i % cols);
        let f = m.normals[i];
        if !nan[i] { near3(f, n[i], "defined normals are kept"); continue }
        let nb: Vec<usize> = (0..rows * cols).filter(|&j| (j / cols).abs_diff(r) + (j % cols).abs_diff(c) == 1).collect();
        if nb.iter().any(|&j| !nan[j]) {
            prove(is_symbolic(f.x) || !f.is_nan(), "an undefined normal next to a defined one is replaced");
            prove_f(f_any(nb.iter().filter(|&&j| !m.normals[j].is_nan()).map(|&j| { let g = m.normals[j]; f_all(vec![f_cmp(f.x, g.x, EQ), f_cmp(f.y, g.y, EQ), f_cmp(f.z, g.z, EQ)]) })), "by a neighbour's");
        }
    }
    reach(0);
}
/// A height field: normals are unit and perpendicular to the surface, one per vertex, on the side of du x dv.
fn normals() {
    set_exact();
    let (p, q) = pick("degree", &[(1usize, 1usize), (2, 1), (2, 2)]);
    let k = real("k", -2.0, 2.0); let l = real("l", -2.0, 2.0);
    // a surface bent by two symbolic amounts
    let pts: Vec<Point3> = (0..(p + 1) * (q + 1)).map(|i| { let (r, c) = (i / (q + 1), i % (q + 1)); Point3::new(r as f64, c as f64 * 2.0, if i == 0 { k } else if r == p && c == 0 { l } else { 0.0 }) }).collect();
    let s = BSplineSurface::new(Grid::from_vec(pts, q + 1), (KnotVector::bezier_knot(p), KnotVector::bezier_knot(q)), (p, q));
    let (du, dv) = (s.derivative_u(), s.derivative_v());
    let patch = SurfacePatch { surface: s, parameter_range: ((0., 1.), (0., 1.)), parameter_division: (2, 2) };
    let m = patch.get_triangle_mesh();
    prove(m.normals.len() == 9, "one normal per vertex");
    for i in 0..9 {
        let (u, v) = ((i / 3) as f64 / 2.0, (i % 3) as f64 / 2.0);
        let (a, b, n) = (du.get_point(u, v), dv.get_point(u, v), m.normals[i]);
        near(n.length_squared(), 1.0, "unit normal");
        near(n.dot(a), 0.0, "perpendicular to the u direction"); near(n.dot(b), 0.0, "perpendicular to the v direction");
        lt(0.0, n.dot(a.cross(b)), "on the side of du x dv");
    }
    reach(0);
}
/// A degenerate edge: its undefined normals are replaced.
fn pole() {
    let edge = choice("edge", 4);
    let h = real("h", 0.1, 5.0);
    let pts: Vec<Point3> = (0..9).map(|i| {
        let (r, c) = (i / 3, i % 3);
        let (a, b) = match edge { 0 => (r, c), 1 => (2 - r, c), 2 => (c, r), _ => (2 - c, r) };
        Point3::new(a as f64 * (b as f64 - 1.0), a as f64, if a == 1 && b == 1 { h } else { 0.0 })
    }).collect();
    let k = KnotVector::bezier_knot(2);
    let s = BSplineSurface::new(Grid::from_vec(pts, 3), (k.clone(), k), (2, 2));
    let patch = SurfacePatch { surface: s, parameter_range: ((0., 1.), (0., 1.)), parameter_division: (2, 2) };
    let m = patch.get_triangle_mesh();
    prove(m.normals.len() == 9, "one normal per vertex");
    for n in &m.normals { prove(is_symbolic(n.x) || !n.is_nan(), "undefined normals are replaced by a neighbour's"); near(n.length_squared(), 1.0, "unit normal") }
    reach(0);
}
