//! G10 cylinder parameterisation and ring map.
use crate::common::*;
use crate::sym::*;
use geom3d::consts::TAU;
use geom3d::surface::{Cylinder, Surface};
pub const LIST: &[(&str, fn())] = &[("g10_point", point), ("g10_project", project), ("g10_any_point", any_point), ("g10_on_ref_dir", on_ref_dir), ("g10_ring", ring), ("g10_ring_back", back)];

fn cyl() -> (Cylinder, geom3d::Vec3, geom3d::Vec3, geom3d::Vec3) {
    let (x, y, z) = frame("f", 4);
    (Cylinder { origin: p3("o", 100.0), axis: z, ref_dir: x, radius: real("r", 0.01, 100.0) }, x, y, z)
}
fn point() {
    let (c, x, y, z) = cyl();
    let l = real("l", -100.0, 100.0); let a = angle("a");
    let p = c.get_point(l, a) - c.origin;
    near(p.dot(z), l, "the given length along the axis");
    let q = p - z * l;
    near(q.length_squared(), c.radius * c.radius, "distance to the axis is the radius");
    near(q.dot(x), c.radius * a.cos(), "angle measured from the reference direction");
    near(q.dot(y), c.radius * a.sin(), "angle grows counter-clockwise about the axis");
    reach(0);
}
fn project() {
    let (c, _, _, _) = cyl();
    let l = real("l", -100.0, 100.0); let a = angle("a");
    let q = c.project(c.get_point(l, a));
    near(q.x, l, "projecting returns the length");
    le(0.0, q.y, "angle at least 0"); lt(q.y, TAU, "angle below 2 pi");
    near(q.y.cos(), a.cos(), "projecting returns the angle (cosine)"); near(q.y.sin(), a.sin(), "projecting returns the angle (sine)");
    reach(0);
}
/// Points off the surface: the projection has their length and direction.
fn any_point() {
    let (c, x, y, z) = cyl();
    let (h, i, j) = (real("h", -100.0, 100.0), real("i", -100.0, 100.0), real("j", -100.0, 100.0));
    assume_lt(0.0001, i * i + j * j);
    let q = c.project(c.origin + z * h + x * i + y * j);
    near(q.x, h, "the length is the height along the axis");
    near(q.y.cos() * j, q.y.sin() * i, "the angle is the direction of the point");
    le(0.0, q.y.cos() * i + q.y.sin() * j, "the angle is on the side of the point");
    reach(0);
}
/// A point exactly in the reference direction is at angle 0, not a full turn.
fn on_ref_dir() {
    let (x, _, z) = frame("f", 1);
    let c = Cylinder { origin: p3("o", 100.0), axis: z, ref_dir: x, radius: real("r", 0.01, 100.0) };
    let h = real("h", -100.0, 100.0);
    let q = c.project(c.origin + z * h + x * real("d", 0.01, 100.0));
    near(q.x, h, "the length is the height along the axis"); near(q.y, 0.0, "a point in the reference direction is at angle 0");
    reach(0);
}
fn ring() {
    let (c, x, y, z) = cyl();
    let l = real("l", -100.0, 100.0); let (ca, sa) = unit("a");
    let d = real("d", 0.01, 200.0);
    assume_le(l + 0.001, d);
    let p = c.origin + z * l + (x * ca + y * sa) * c.radius;
    let q = c.project_to_ring(p, d);
    near(q.x * (d - l), c.radius * ca * d, "ring point x"); near(q.y * (d - l), c.radius * sa * d, "ring point y");
    near3(c.generate_point_from_ring(q, d), p, "mapping to the ring and back returns the same point");
    reach(0);
}
/// From the ring: the generated point is on the cylinder and maps back.
fn back() {
    let (c, x, y, z) = cyl();
    let d = real("d", 0.01, 200.0); let rho = real("rho", 0.01, 200.0); let (ca, sa) = unit("a");
    let q = geom3d::Point2::new(rho * ca, rho * sa);
    let p = c.generate_point_from_ring(q, d);
    let w = p - c.origin;
    near(w.dot(x), c.radius * ca, "on the cylinder (x)"); near(w.dot(y), c.radius * sa, "on the cylinder (y)");
    near(w.dot(z) * rho, d * (rho - c.radius), "height of a ring point");
    let b = c.project_to_ring(p, d);
    near(b.x, q.x, "ring point x returns"); near(b.y, q.y, "ring point y returns");
    reach(0);
}
