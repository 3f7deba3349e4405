//! G11 plane, spin, sweep, umbrella; boxing.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BezierCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::surface::*;
use geom3d::{Face, Grid, KnotVector, Point2, Point3, Vec3};
pub const LIST: &[(&str, fn())] = &[("g11_plane", plane), ("g11_spin", spin), ("g11_sweep", sweep), ("g11_umbrella", umbrella), ("g11_boxed", boxed)];

fn plane() {
    let (x, y, z) = frame("f", 4);
    let o = p3("o", 100.0);
    let s = Plane { origin: o, normal: z, u_axis: x, v_axis: y };
    let (u, v) = (real("u", -100.0, 100.0), real("v", -100.0, 100.0));
    let p = s.get_point(u, v);
    near3(p, o + x * u + y * v, "plane point is origin + u u_axis + v v_axis");
    let q = s.project(p);
    near(q.x, u, "projecting inverts u"); near(q.y, v, "projecting inverts v");
    let r = s.project(p + z * real("h", -100.0, 100.0));
    near(r.x, u, "projecting ignores the height (u)"); near(r.y, v, "projecting ignores the height (v)");
    reach(0);
    // arbitrary, also non-orthogonal axes
    let s = Plane { origin: o, normal: z, u_axis: p3("ua", 10.0), v_axis: p3("va", 10.0) };
    near3(s.get_point(u, v), o + s.u_axis * u + s.v_axis * v, "plane point with any axes");
}
fn spin() {
    let (x, y, z) = frame("f", 4);
    let o = p3("o", 100.0);
    let n = 2 + choice("points", 2);
    let cps: Vec<Point3> = (0..n).map(|i| p3(&format!("c{i}"), 100.0)).collect();
    let s = SpinSurface { origin: o, axis: z, section: BezierCurve { control_points: cps } };
    let t = real("t", 0.0, 1.0); let a = angle("a");
    let p = s.section.get_point(t) - o;
    let q = s.get_point(t, a) - o;
    near(q.dot(z), p.dot(z), "position along the axis is kept");
    let (px, py) = (p.dot(x), p.dot(y));
    near(q.dot(x), px * a.cos() - py * a.sin(), "the section turns counter-clockwise (x)");
    near(q.dot(y), px * a.sin() + py * a.cos(), "the section turns counter-clockwise (y)");
    near3(s.get_point(t, 0.0), o + p, "angle 0 is the section itself");
    reach(0);
}
fn sweep() {
    let path = BezierCurve { control_points: (0..2 + choice("points", 2)).map(|i| p3(&format!("c{i}"), 100.0)).collect() };
    let section = Line { origin: p3("o", 100.0), direction: p3("d", 10.0) };
    let (t, u) = (real("t", 0.0, 1.0), real("u", -10.0, 10.0));
    let e = path.get_point(t) + section.get_point(u);
    let s = SweepSurface { path, section };
    near3(s.get_point(t, u), e, "sweep point is path point + section point");
    reach(0);
}
fn umbrella() {
    let r = real("r", 0.01, 100.0);
    let s = Umbrella { radius: r };
    let (t, f) = (angle("theta"), angle("phi"));
    let p = s.get_point(t, f);
    let rr = r / geom3d::consts::PI;
    near(p.z, rr * (1.0 + t.cos()), "height is r(1 + cos theta)");
    near(p.x, rr * (t - t.sin()) * f.cos(), "radial coordinate is r(theta - sin theta), x");
    near(p.y, rr * (t - t.sin()) * f.sin(), "radial coordinate is r(theta - sin theta), y");
    reach(0);
}
fn boxed() {
    let cps: Vec<Point3> = (0..9).map(|i| Point3::new((i / 3) as f64, (i % 3) as f64, real(&format!("z{i}"), -10.0, 10.0))).collect();
    let (u, v) = (real("u", 0.0, 1.0), real("v", 0.0, 1.0));
    let make = || BSplineSurface::new(Grid::from_vec(cps.clone(), 3), (KnotVector::bezier_knot(2), KnotVector::bezier_knot(2)), (2, 2));
    let a = make(); let b: Box<dyn Surface> = Box::new(make());
    let c: Box<dyn Surface> = Box::new(Box::new(make()) as Box<dyn Surface>);
    near3(b.get_point(u, v), a.get_point(u, v), "boxed surface evaluates the same");
    near3(Surface::get_point(&b, u, v), a.get_point(u, v), "box as a surface evaluates the same");
    let ps = [Point2::new(0.25, 0.5), Point2::new(1.0, 0.0)];
    let n = a.get_normals(&ps);
    let patch = SurfacePatch { surface: b, parameter_range: ((0., 1.), (0., 1.)), parameter_division: (1, 1) };
    for s in [Surface::get_normals(&patch.surface, &ps), Surface::get_normals(&c, &ps)] {
        prove(s.len() == n.len(), "a boxed surface has the same number of normals");
        for i in 0..s.len() { near3(s[i], n[i], "a boxed surface has the same normals") }
    }
    // a face of the boxed surface is trimmed like the surface itself
    let corner = [(0.2, 0.2), (0.8, 0.2), (0.5, 0.7)].map(|(x, y)| Point3::new(2.0 * x, 2.0 * y, 0.0));
    let oz = real("oz", -10.0, 10.0);
    let plane = || Plane { origin: Point3::new(0., 0., oz), normal: Vec3::Z, u_axis: Vec3::X, v_axis: Vec3::Y };
    let bounds = || vec![EdgeLoop { edges: (0..3).map(|i| CurveSegment { curve: Box::new(Polyline::new(vec![corner[i], corner[(i + 1) % 3]])) as Box<dyn Curve>, parameter_range: (0., 1.), tolerance: 0.01, parameter_division: 4 }).collect() }];
    let bp: Box<dyn Surface> = Box::new(plane());
    let (m, n) = (Surface::trim(&bp, &bounds()), plane().trim(&bounds()));
    prove(m.vertices.len() == n.vertices.len() && m.triangles == n.triangles && n.triangle_count() > 0, "a boxed surface is trimmed the same");
    for i in 0..m.vertices.len().min(n.vertices.len()) { near3(m.vertices[i], n.vertices[i], "a boxed surface is trimmed the same") }
    let m = TrimmedSurface { surface: bp, bounds: bounds() }.get_triangle_mesh();
    prove(m.triangles == n.triangles, "a face on a boxed surface is meshed the same");
    let l = || Line { origin: Point3::new(1., 2., 3.), direction: Vec3::new(1., 2., 2.) };
    let p = p3("p", 100.0);
    let bl: Box<dyn Curve> = Box::new(l());
    near3(Curve::get_point(&bl, u), l().get_point(u), "boxed curve evaluates the same");
    near(Curve::project(&bl, p), l().project(p), "boxed curve projects the same");
    let k = || Circle { center: Point3::new(1., 2., 3.), radius: 2.0, axis: Vec3::new(0., 0., 1.), ref_dir: Vec3::new(1., 0., 0.) };
    let bk: Box<dyn Curve> = Box::new(k());
    for same in [false, true] {
        let (x, y) = (Curve::refine_parameter_range(&bk, (u, v), same), k().refine_parameter_range((u, v), same));
        near(x.0, y.0, "boxed curve refines ranges the same"); near(x.1, y.1, "boxed curve refines ranges the same");
    }
    reach(0);
}
