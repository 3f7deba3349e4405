//! G05 knot vector operations.
use crate::common::*;
use crate::sym::*;
use geom3d::KnotVector;
pub const LIST: &[(&str, fn())] = &[("g05_span", span), ("g05_ops", ops), ("g05_build", build), ("g05_uniform", uniform)];

fn any(max: usize, gmin: f64) -> Knots {
    let len = 1 + choice("gaps", max);
    let pats: Vec<Vec<bool>> = patterns(len, len).into_iter().filter(|z| z.iter().any(|b| !*b)).collect();
    Knots::from_pattern("k", pick("pattern", &pats), -100.0, 100.0, gmin, 100.0)
}
fn span() {
    let kn = any(if thorough() { 7 } else { 6 }, 1e-6);
    let v = kn.vec();
    let u = real("u", -1e4, 1e4);
    assume_le(kn.start(), u); assume_le(u, kn.end());
    let i = v.span_index(u);
    prove(i + 1 < v.len(), "the span has an end knot");
    lt(v[i], v[i + 1], "the span is not empty");
    le(v[i], u, "the span starts at or before the parameter");
    le(u, v[i + 1], "the span ends at or after the parameter");
    prove_f(f_or(f_cmp(u, v[i + 1], LT), f_cmp(v[i + 1], kn.end(), EQ)), "only the last span contains its end");
    reach(0);
}
fn ops() {
    let kn = any(5, 1e-3);
    let v = kn.vec();
    let n = kn.k.len();
    for i in 0..n {
        let e = (0..n).filter(|&j| kn.same(i, j)).count();
        prove(v.multiplicity(i) == e, "multiplicity counts equal knots");
    }
    let s = v.normalize();
    prove(s.len() == n, "normalising keeps the knot count");
    eq(s[0], 0.0, "normalised range starts at 0");
    near(s[n - 1], 1.0, "normalised range ends at 1");
    for i in 0..n { near((kn.end() - kn.start()) * s[i] + kn.start(), kn.k[i], "normalising is affine") }
    for i in 1..n { le(s[i - 1], s[i], "normalising keeps the order") }
    prove(v.range().0 == kn.k[0] && v.range().1 == kn.k[n - 1], "range is the first and last knot");
    // insertion anywhere, also outside the range
    let t = real("t", -1e4, 1e4);
    let mut w = v.clone();
    let pos = w.add_knot(t);
    prove(w.len() == n + 1, "inserting adds one knot");
    prove(pos < n + 1, "the reported position exists");
    eq(w[pos], t, "the new knot is at the reported position");
    for i in 1..=n { le(w[i - 1], w[i], "inserting keeps the vector sorted") }
    for i in 0..n { eq(w[if i < pos { i } else { i + 1 }], kn.k[i], "inserting keeps the other knots") }
    reach(0);
    if n > 2 {
        let sh = v.shrink();
        prove(sh.len() == n - 2, "shrinking drops two knots");
        for i in 0..n - 2 { eq(sh[i], kn.k[i + 1], "shrinking drops the first and last knot") }
    }
    let d = choice("degree", n - 1) + 1;
    let sp = v.spans(d);
    prove(sp.len() == n - d, "one span per window");
    for i in 0..sp.len() { eq(sp[i], kn.k[i + d] - kn.k[i], "span is the knot difference") }
    let sub = v.sub_vec(1..n);
    for i in 1..n { eq(sub[i - 1], kn.k[i], "sub vector keeps the selected knots") }
    reach(1);
}
fn build() {
    let n = 1 + choice("values", 4);
    let vals: Vec<f64> = (0..n).map(|i| real(&format!("v{i}"), -100.0, 100.0)).collect();
    let mult: Vec<usize> = (0..n).map(|i| 1 + choice(&format!("m{i}"), 4)).collect();
    let k = KnotVector::from_values_and_multiplicities(vals.clone(), mult.clone());
    prove(k.len() == mult.iter().sum::<usize>(), "knot count is the sum of the multiplicities");
    let mut at = 0;
    for i in 0..n { for _ in 0..mult[i] { eq(k[at], vals[i], "each value is repeated its multiplicity, in order"); at += 1 } }
    reach(0);
}
fn uniform() {
    let p = choice("degree", 5);
    let d = 1 + choice("division", 6);
    let k = KnotVector::uniform_knot(p, d);
    prove(k.len() == 2 * (p + 1) + d - 1, "uniform knot count");
    for i in 0..k.len() {
        let e = if i <= p { 0.0 } else if i >= p + d { 1.0 } else { (i - p) as f64 / d as f64 };
        near(k[i], e, "uniform knots are evenly spaced and clamped");
    }
    let b = KnotVector::bezier_knot(p);
    prove(b.len() == 2 * p + 2, "bezier knot count");
    for i in 0..b.len() { eq(b[i], if i <= p { 0.0 } else { 1.0 }, "bezier knots are 0 and 1") }
    reach(0);
}
