//! G09 circles and arc ranges.
use crate::common::*;
use crate::sym::*;
use geom3d::consts::TAU;
use geom3d::curve::{Circle, Curve};
pub const LIST: &[(&str, fn())] = &[("g09_point", point), ("g09_inverse", inverse), ("g09_range", range), ("g09_special", special)];

fn point() {
    let (x, y, z) = frame("f", 4);
    let o = p3("o", 100.0); let r = real("r", 0.01, 100.0);
    let c = Circle { center: o, radius: r, axis: z, ref_dir: x };
    let a = angle("a");
    let turn = choice("turn", 3) as f64 - 1.0;
    let p = c.get_point(a + TAU * turn) - o;
    near(p.length_squared(), r * r, "distance to the centre is the radius");
    near(p.dot(z), 0.0, "the point is in the plane of the circle");
    near(p.dot(x), r * a.cos(), "angle measured from the reference direction");
    near(p.dot(y), r * a.sin(), "angle grows counter-clockwise about the axis");
    near3(c.get_point(0.0), o + x * r, "angle 0 is the reference direction");
    reach(0);
}
fn inverse() {
    let (x, _, z) = frame("f", 4);
    let o = p3("o", 100.0); let r = real("r", 0.01, 100.0);
    let c = Circle { center: o, radius: r, axis: z, ref_dir: x };
    let a = angle("a");
    let u = c.project(c.get_point(a));
    le(0.0, u, "angle at least 0"); lt(u, TAU, "angle below 2 pi");
    near(u.cos(), a.cos(), "projecting inverts evaluation (cosine)");
    near(u.sin(), a.sin(), "projecting inverts evaluation (sine)");
    reach(0);
}
fn range() {
    let c = Circle { center: geom3d::Point3::new(0., 0., 0.), radius: 1.0, axis: geom3d::Vec3::new(0., 0., 1.), ref_dir: geom3d::Vec3::new(1., 0., 0.) };
    let a = real("a", 0.0, TAU); let b = real("b", 0.0, TAU);
    assume_lt(a, TAU); assume_lt(b, TAU);
    let same = choice("same", 2) == 1;
    let boxed: bool = choice("boxed", 2) == 1;
    let (s, e) = if boxed { let d: Box<dyn Curve> = Box::new(c); d.refine_parameter_range((a, b), same) } else { c.refine_parameter_range((a, b), same) };
    let turn = |v: f64, w: f64| f_any(vec![f_cmp(v, w, EQ), f_cmp(v, w + TAU, EQ), f_cmp(v, w - TAU, EQ)]);
    prove_f(turn(s, a), "the start is the given start up to full turns");
    prove_f(turn(e, b), "the end is the given end up to full turns");
    if same { lt(s, e, "same sense runs upward over more than zero"); le(e - s, TAU, "at most one full turn") }
    else { lt(e, s, "opposite sense runs downward over more than zero"); le(s - e, TAU, "at most one full turn") }
    reach(0);
}
/// Inputs on the edge of a case: full circles and the reference direction itself.
fn special() {
    let (x, _, z) = frame("f", 1);
    let o = p3("o", 10.0); let c = Circle { center: o, radius: real("r", 0.01, 100.0), axis: z, ref_dir: x };
    let a = real("a", 0.0, 6.25); let same = choice("same", 2) == 1;
    let (s, e) = c.refine_parameter_range((a, a), same);
    near(if same { e - s } else { s - e }, TAU, "equal end angles are a full turn in the requested sense");
    near(c.project(o + x * real("d", 0.01, 100.0)), 0.0, "a point in the reference direction is at angle 0");
    reach(0);
}
