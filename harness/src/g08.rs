//! G08 polylines are parameterised by arc length.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{Curve, Polyline};
use geom3d::Point3;
pub const LIST: &[(&str, fn())] = &[("g08_arc", arc), ("g08_all_equal", all_equal), ("g08_float", float), ("g08_general", general)];

fn arc() {
    let n = 1 + choice("segments", if thorough() { 4 } else { 3 });
    let (v, l) = rational_path("s", n, &[0, 2, 3], true);
    let c = Polyline::new(v.clone());
    prove(c.segment_lengths.len() == n, "one length per segment");
    let mut total = 0.0;
    for i in 0..n { near(c.segment_lengths[i], l[i], "segment length is the distance of its vertices"); total = total + l[i] }
    near(c.length, total, "length is the sum of the segment lengths");
    near3(c.start(), v[0], "start is the first vertex"); near3(c.end(), v[n], "end is the last vertex");
    let t = real("t", -2.0, 3.0);
    let q = c.get_point(t);
    if t <= 0.0 { near3(q, v[0], "t <= 0 is the first vertex"); reach(0); return }
    if t >= 1.0 { near3(q, v[n], "t >= 1 is the last vertex"); reach(1); return }
    if l.iter().all(|x| !is_symbolic(*x) && *x == 0.0) { near3(q, v[0], "a polyline of equal vertices is that point"); return }
    // the segment i and the arc length s before it with s <= t*total <= s + l_i
    let a = t * total;
    let mut s = 0.0;
    let mut any = vec![];
    for i in 0..n {
        if is_symbolic(l[i]) || l[i] > 0.0 {
            let e = v[i] + (v[i + 1] - v[i]) * ((a - s) / l[i]);
            let d = q - e;
            any.push(f_all(vec![f_cmp(s - 1e-9, a, LE), f_cmp(a, s + l[i] + 1e-9, LE), f_cmp(d.x, 1e-9, LE), f_cmp(-1e-9, d.x, LE), f_cmp(d.y, 1e-9, LE), f_cmp(-1e-9, d.y, LE), f_cmp(d.z, 1e-9, LE), f_cmp(-1e-9, d.z, LE)]));
        }
        s = s + l[i];
    }
    prove_f(f_any(any), "the point lies at arc length t times the total length");
    reach(2);
}
fn all_equal() {
    let n = 2 + choice("vertices", 3);
    let p = p3("p", 100.0);
    let c = Polyline::new(vec![p; n]);
    let t = real("t", -1.0, 2.0);
    let q = c.get_point(t);
    prove(is_symbolic(q.x) || !q.x.is_nan(), "the point is a number");
    near3(q, p, "a polyline of equal vertices evaluates to that point");
    reach(0);
}
/// Bit-precise floating point: no parameter and no recorded segment lengths make evaluation panic.
fn float() {
    set_mode(FP);
    let n = 1 + choice("segments", 3);
    let l: Vec<f64> = (0..n).map(|i| { let l = any_fp(&format!("l{i}")); assume_f(f_and(f_cmp(0.001, l, LE), f_cmp(l, 1000.0, LE))); l }).collect();
    let length = l.iter().sum::<f64>();
    // one segment: every parameter; more: the parameters next to 1, where rounding matters
    let t = if n == 1 { let t = any_fp("t"); assume_f(f_and(f_cmp(0.0, t, LE), f_cmp(t, 1.0, LE))); t }
        else { pick("t", &[1.0 - f64::EPSILON / 2.0, 1.0 - f64::EPSILON, 1.0 - 2.0 * f64::EPSILON]) };
    let c = Polyline { vertices: (0..=n).map(|i| Point3::new(i as f64, 0.0, 1.0)).collect(), segment_lengths: l, length };
    let r = catch(|| c.get_point(t));
    prove(r.is_ok(), "evaluation does not panic");
    reach(0);
}
/// Arbitrary vertices: end points, lengths.
fn general() {
    let n = 2 + choice("vertices", 3);
    let v: Vec<Point3> = (0..n).map(|i| p3(&format!("v{i}"), 100.0)).collect();
    let c = Polyline::new(v.clone());
    for i in 0..n - 1 {
        let d = v[i + 1] - v[i];
        near(c.segment_lengths[i] * c.segment_lengths[i], d.length_squared(), "segment length is the distance of its vertices");
        le(0.0, c.segment_lengths[i], "lengths are not negative");
    }
    let s = c.segment_lengths.iter().fold(0.0, |a, b| a + *b);
    near(c.length, s, "length is the sum of the segment lengths");
    near3(c.get_point(0.0), v[0], "t = 0 is the first vertex"); near3(c.get_point(1.0), v[n - 1], "t = 1 is the last vertex");
    reach(0);
}
