//! G04 knot insertion, splitting, clamping and Bezier conversion keep the curve.
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, Curve};
use geom3d::Point3;
pub const LIST: &[(&str, fn())] = &[("g04_add_knot", add_knot), ("g04_add_twice", add_twice), ("g04_split", split), ("g04_clamp", clamp), ("g04_bezier", bezier)];

/// A clamped, unclamped or partly repeated knot vector for degree p; symbolic gaps up to `sym` of them, dyadic ones beyond.
fn any_knots(p: usize, sym: usize, cap: usize) -> (usize, Knots) {
    let shape = choice("shape", 3);
    let most = if shape == 0 { if p == 1 { 2 } else { 3 } } else if p == 3 && !thorough() { 1 } else { 2 };
    let extra = choice("extra", most.min(cap) + 1);
    (extra, shaped(p, extra, sym, shape))
}
fn shaped(p: usize, extra: usize, sym: usize, shape: usize) -> Knots {
    let len = 2 * p + extra + 1;
    let z = match shape {
        0 => return if extra + 1 <= sym { clamped_in("k", p, extra, -10.0, 10.0, 0.01, 10.0) } else { concrete(&{ let mut z = vec![true; p]; z.push(false); z.extend(pick("kpattern", &patterns(extra - 1, p))); z.push(false); z.extend(vec![true; p]); z }) },
        1 => vec![false; len],
        // partly repeated: some knot runs inside and at the ends
        _ => {
            let all: Vec<Vec<bool>> = patterns(len, p).into_iter().filter(|z| z.iter().any(|b| *b) && z.iter().filter(|b| **b).count() <= if p == 1 || thorough() { 2 } else { 1 }).collect();
            if all.is_empty() { vec![false; len] } else { pick("pattern", &all) }
        }
    };
    if z.iter().filter(|b| !**b).count() <= sym { Knots::from_pattern("k", z, -10.0, 10.0, 0.01, 10.0) } else { concrete(&z) }
}
fn concrete(z: &[bool]) -> Knots {
    set_exact();
    let mut k = vec![-1.0f64];
    for (i, z) in z.iter().enumerate() { let l = *k.last().unwrap(); k.push(if *z { l } else { l + [1.0, 0.5, 2.0, 0.25, 1.5][i % 5] }) }
    Knots::concrete(k)
}
fn curve(p: usize, sym: usize, cap: usize) -> (Knots, BSplineCurve<Point3>) {
    let (extra, kn) = any_knots(p, sym, cap);
    let n = p + 1 + extra;
    let cps = (0..n).map(|i| Point3::new(real(&format!("p{i}"), -100.0, 100.0), (i * i) as f64 + 1.0, 3.0 - 2.0 * i as f64)).collect();
    let c = BSplineCurve { control_points: cps, knots: kn.vec(), degree: p as u8 };
    (kn, c)
}
fn degree() -> usize { 1 + choice("degree", 3) }
fn invariants(c: &BSplineCurve<Point3>, p: usize) {
    prove(c.degree() == p, "degree is unchanged");
    prove(c.knots.len() == c.control_points.len() + p + 1, "knot count equals control points + degree + 1");
    for w in c.knots.windows(2) { le(w[0], w[1], "knots stay sorted") }
}
/// An insertion parameter: an existing knot, or strictly inside a span at least 0.001 away from its ends.
fn place(name: &str, kn: &Knots, lo: usize, hi: usize) -> (f64, bool) {
    let spans: Vec<usize> = kn.spans().into_iter().filter(|s| lo <= *s && *s < hi).collect();
    let mut at: Vec<usize> = vec![];
    for i in lo..=hi { if at.last().map_or(true, |l| !kn.same(*l, i)) { at.push(i) } }
    let c = choice(name, spans.len() + at.len());
    if c < spans.len() {
        let (lo, hi) = if is_symbolic(kn.k[spans[c]]) || is_symbolic(kn.k[spans[c] + 1]) || !SYMBOLIC { (-1e3, 1e3) } else { (kn.k[spans[c]], kn.k[spans[c] + 1]) };
        let t = real(&format!("{name}t"), lo, hi);
        assume_le(kn.k[spans[c]] + 0.001, t); assume_le(t, kn.k[spans[c] + 1] - 0.001);
        (t, false)
    } else { (kn.k[at[c - spans.len()]], true) }
}
fn add_knot() {
    let p = degree();
    let (kn, c) = curve(p, 5, 9);
    let (t, _) = place("at", &kn, 0, kn.k.len() - 1);
    let (_, u) = param_in("u", &kn, &kn.spans(), true);
    let before = c.get_point(u);
    let mut d = c.clone();
    d.add_knot(t);
    invariants(&d, p);
    prove(d.control_points.len() == c.control_points.len() + 1, "one control point more");
    near3(d.get_point(u), before, "inserting a knot keeps every curve point");
    reach(0);
}
fn add_twice() {
    let p = 1 + choice("degree", 2);
    let (kn, c) = curve(p, 5, if thorough() { 2 } else { p - 1 });
    let (t, _) = place("at", &kn, p, kn.k.len() - 1 - p);
    let (r, _) = place("at2", &kn, p, kn.k.len() - 1 - p);
    let (_, u) = param_in("u", &kn, &kn.spans(), true);
    let before = c.get_point(u);
    let mut d = c.clone();
    d.add_knot(t); d.add_knot(r);
    invariants(&d, p);
    near3(d.get_point(u), before, "inserting two knots keeps every curve point");
    reach(0);
}
fn split() {
    let p = degree();
    let (kn, c) = curve(p, 5, 9);
    let m = kn.k.len();
    let (t, at_knot) = place("at", &kn, p, m - 1 - p);
    if at_knot {
        // interior parameters only, and knots of at most degree multiplicity (the curve is continuous there)
        if (0..m).any(|i| (kn.same(i, p) || kn.same(i, m - 1 - p)) && { let mut e = false; if kn.k[i] == t { e = true } e }) { assume(false) }
    }
    let (_, u) = param_in("u", &kn, &kn.spans(), true);
    let before = c.get_point(u);
    let start = c.get_point(kn.start());
    let end = c.get_point(kn.end());
    let mut left = c.clone();
    let right = left.split(t);
    invariants(&left, p); invariants(&right, p);
    eq(left.knots.range().0, kn.start(), "the left piece starts where the curve started");
    eq(left.knots.range().1, t, "the left piece ends at the split parameter");
    eq(right.knots.range().0, t, "the right piece starts at the split parameter");
    eq(right.knots.range().1, kn.end(), "the right piece ends where the curve ended");
    if u < t { near3(left.get_point(u), before, "the left piece reproduces the curve") }
    else { near3(right.get_point(u), before, "the right piece reproduces the curve") }
    near3(left.get_point(t), right.get_point(t), "the pieces join");
    near3(left.get_point(kn.start()), start, "the left piece keeps the start point");
    near3(right.get_point(kn.end()), end, "the right piece keeps the end point");
    reach(0);
}
fn clamp() {
    let p = degree();
    let (kn, c) = curve(p, 5, 9);
    let (_, u) = param_in("u", &kn, &kn.spans(), true);
    let before = c.get_point(u);
    let mut d = c.clone();
    d.clamp();
    invariants(&d, p);
    let m = d.knots.len();
    for i in 0..=p { eq(d.knots[i], kn.start(), "first degree+1 knots are the start"); eq(d.knots[m - 1 - i], kn.end(), "last degree+1 knots are the end") }
    near3(d.get_point(u), before, "clamping keeps every curve point");
    reach(0);
}
fn bezier() {
    let p = degree();
    let (kn, c) = curve(p, 4, 9);
    let pieces = c.to_piecewise_bezier();
    let spans = kn.spans();
    prove(pieces.len() == spans.len(), "one Bezier piece per non-empty knot span");
    let i = choice("piece", spans.len());
    let s = spans[i];
    prove(pieces[i].control_points.len() == p + 1, "pieces have the degree of the curve");
    let x = real("x", 0.0, 1.0);
    if i + 1 < spans.len() { assume_lt(x, 1.0) }
    let (a, b) = (kn.k[s], kn.k[s + 1]);
    near3(pieces[i].get_point(x), c.get_point(a + (b - a) * x), "a Bezier piece reproduces its span");
    if i > 0 { near3(pieces[i - 1].get_point(1.0), pieces[i].get_point(0.0), "pieces join end to end") }
    reach(0);
}
