//! G19 curve division.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{Curve, CurveSegment};
use geom3d::utils::{parameter_division, uniform_divide};
use geom3d::Point3;
pub const LIST: &[(&str, fn())] = &[("g19_uniform", uniform), ("g19_adaptive", adaptive), ("g19_arbitrary", arbitrary), ("g19_segment", segment), ("g19_exact", exact)];

fn uniform() {
    let n = 1 + choice("division", if thorough() { 64 } else { 24 });
    let (a, b) = (real("a", -100.0, 100.0), real("b", -100.0, 100.0));
    let v = uniform_divide((a, b), n);
    prove(v.len() == n + 1, "division + 1 parameters");
    eq(v[0], a, "the first is exactly the range start"); eq(v[n], b, "the last is exactly the range end");
    for i in 0..=n { near(v[i], a + (b - a) * (i as f64 / n as f64), "evenly spaced") }
    reach(0);
}
/// The parabola (u, k u^2, 0): its chord error over a width w at ratio p is k p (1 - p) w^2.
#[derive(Debug)]
struct Parabola(f64);
impl Curve for Parabola {
    fn get_point(&self, u: f64) -> Point3 { Point3::new(u, self.0 * u * u, 0.0) }
    fn project(&self, _: Point3) -> f64 { 0.0 }
}
/// `v` are the leaves, in order, of a tree that splits [a, b] at midpoints; returns the leaves' and the split intervals
fn dyadic(v: &[f64], a: f64, b: f64, w: f64, leaves: &mut Vec<f64>, splits: &mut Vec<f64>) {
    near(v[0], a, "an interval starts where it should"); near(v[v.len() - 1], b, "an interval ends where it should");
    if v.len() == 2 { leaves.push(w); return }
    prove(v.len() > 2, "an interval has two ends");
    let m = (a + b) / 2.0;
    // position of the midpoint: values increase (or decrease) along the list
    match (1..v.len() - 1).find(|&i| branch_f(f_all(vec![f_cmp(v[i], m + 1e-9, LE), f_cmp(m - 1e-9, v[i], LE)]))) {
        None => prove(false, "intervals are split at their midpoint only"),
        Some(i) => { splits.push(w); dyadic(&v[..=i], a, m, w / 2.0, leaves, splits); dyadic(&v[i..], m, b, w / 2.0, leaves, splits) }
    }
}
fn check(v: &[f64], a: f64, w: f64, k: f64, tol: f64) {
    let b = a + w;
    prove(v.len() >= 2, "at least the two ends");
    eq(v[0], a, "starts exactly at the range start"); eq(v[v.len() - 1], b, "ends exactly at the range end");
    for i in 1..v.len() { if w > 0.0 { lt(v[i - 1], v[i], "strictly increasing") } else { lt(v[i], v[i - 1], "strictly decreasing") } }
    let (mut leaves, mut splits) = (vec![], vec![]);
    dyadic(v, a, b, w, &mut leaves, &mut splits);
    // sampled between 40% and 60%: an interval that stayed has an error below the tolerance at some of them, one that was split reached it at some
    for l in leaves { lt(k * 0.24 * l * l, tol + 1e-12, "no interval is left whose sampled chord error reaches the tolerance") }
    for s in splits { le(tol - 1e-12, k * 0.25 * s * s, "an interval within the tolerance everywhere is not split") }
    reach(if v.len() > 2 { 1 } else { 0 });
}
fn setup() -> (f64, f64, f64, f64) {
    let a = real("a", -10.0, 10.0);
    let w = pick("width", &[1.0, -1.0, 2.5]);
    let k = real("k", 0.01, 1.0);
    let tol = pick("tol", if thorough() { &[0.02, 0.004] } else { &[0.05, 0.02] });
    (a, w, k, tol)
}
fn adaptive() {
    let (a, w, k, tol) = setup();
    // the parameter is measured from a, so that the parabola stays small
    #[derive(Debug)]
    struct Shift(f64, f64);
    impl Curve for Shift {
        fn get_point(&self, u: f64) -> Point3 { let t = u - self.0; Point3::new(0.0, self.1 * t * t, 0.0) }
        fn project(&self, _: Point3) -> f64 { 0.0 }
    }
    let v = parameter_division(&Shift(a, k), (a, a + w), tol);
    check(&v, a, w, k, tol);
}
/// Every curve: whatever the curve does, the division starts and ends at the range ends and splits at midpoints.
fn arbitrary() {
    set_timeout(1000);
    use std::cell::Cell;
    #[derive(Debug)]
    struct Any(Cell<i32>);
    impl Curve for Any {
        fn get_point(&self, u: f64) -> Point3 { let n = self.0.get(); self.0.set(n - 1); if n > 0 { Point3::new(real("y", -10.0, 10.0), 0.0, 0.0) } else { Point3::new(0.0 * u, 0.0, 0.0) } }
        fn project(&self, _: Point3) -> f64 { 0.0 }
    }
    let a = real("a", -10.0, 10.0); let w = pick("width", &[1.0, -2.0]);
    let v = parameter_division(&Any(Cell::new(if thorough() { 12 } else { 9 })), (a, a + w), 0.01);
    let b = a + w;
    eq(v[0], a, "starts exactly at the range start"); eq(v[v.len() - 1], b, "ends exactly at the range end");
    for i in 1..v.len() { if w > 0.0 { lt(v[i - 1], v[i], "strictly increasing") } else { lt(v[i], v[i - 1], "strictly decreasing") } }
    dyadic(&v, a, b, w, &mut vec![], &mut vec![]);
    reach(if v.len() > 2 { 1 } else { 0 });
}
/// A segment's points are the curve's at the divided parameters.
fn segment() {
    let w = pick("width", &[1.0, -1.0]); let a = pick("start", &[0.0, 3.0]);
    let k = real("k", 0.01, 1.0);
    let tol = 0.1;
    let s = CurveSegment { curve: Parabola(k), parameter_range: (a, a + w), tolerance: tol, parameter_division: 16 };
    let p = s.get_points();
    for q in &p { near(q.y, k * q.x * q.x, "sampled on the curve") }
    let v: Vec<f64> = p.iter().map(|q| q.x).collect();
    eq(v[0], a, "starts exactly at the range start"); eq(v[v.len() - 1], a + w, "ends exactly at the range end");
    let (mut l, mut sp) = (vec![], vec![]);
    dyadic(&v, a, a + w, w, &mut l, &mut sp);
    // no refinement can be skipped: the parabola bends the point (u, k u^2) away from its chord by at most k w^2 / 4
    for x in l { lt(k * 0.24 * x * x, tol + 1e-9, "no interval is left whose sampled chord error reaches the tolerance") }
    reach(0);
}
/// In doubles: the ends are the range ends to the last bit, whatever the rounding of the steps.
fn exact() {
    set_mode(FP);
    let end = |n: &str| { let a = any_fp(n); assume_f(f_and(f_cmp(-1e6, a, LE), f_cmp(a, 1e6, LE))); a };
    let (a, b) = (end("a"), end("b"));
    let k = choice("division", if thorough() { 16 } else { 8 });
    if k > 0 {
        let v = uniform_divide((a, b), k);
        prove(v.len() == k + 1, "division + 1 parameters");
        eq(v[0], a, "the first is exactly the range start"); eq(v[k], b, "the last is exactly the range end");
    } else {
        // a curve that leaves its chord at some of the first three samples
        use std::cell::Cell;
        #[derive(Debug)]
        struct Some3(Cell<usize>, usize);
        impl Curve for Some3 {
            fn get_point(&self, _: f64) -> Point3 { let n = self.0.get(); self.0.set(n + 1); Point3::new(if n % 3 == 2 && n < 9 && self.1 >> (n / 3) & 1 == 1 { 1.0 } else { 0.0 }, 0.0, 0.0) }
            fn project(&self, _: Point3) -> f64 { 0.0 }
        }
        let v = parameter_division(&Some3(Cell::new(0), choice("splits", 8)), (a, b), 0.01);
        prove(v.len() >= 2, "at least the two ends");
        eq(v[0], a, "starts exactly at the range start"); eq(v[v.len() - 1], b, "ends exactly at the range end");
    }
    reach(0);
}
