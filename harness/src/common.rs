//! Generators and reference definitions shared by the harnesses.
use crate::sym::*;
use geom3d::KnotVector;

pub fn thorough() -> bool { std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) }

/// A non-decreasing knot vector: first knot symbolic, every gap either exactly zero (a structural choice) or any real in
/// [gmin, gmax].
#[derive(Clone)]
pub struct Knots { pub k: Vec<f64>, pub zero: Vec<bool> }
impl Knots {
    pub fn vec(&self) -> KnotVector { KnotVector(self.k.clone()) }
    /// knots i and j are the same value by construction
    pub fn same(&self, i: usize, j: usize) -> bool { let (a, b) = (i.min(j), i.max(j)); self.zero[a..b].iter().all(|z| *z) }
    /// indices of the non-empty spans [k_i, k_{i+1})
    pub fn spans(&self) -> Vec<usize> { (0..self.zero.len()).filter(|&i| !self.zero[i]).collect() }
    pub fn start(&self) -> f64 { self.k[0] }
    pub fn end(&self) -> f64 { self.k[self.k.len() - 1] }
    pub fn from_pattern(name: &str, zero: Vec<bool>, lo: f64, hi: f64, gmin: f64, gmax: f64) -> Knots {
        let mut k = vec![real(&format!("{name}0"), lo, hi)];
        for (i, z) in zero.iter().enumerate() { let l = *k.last().unwrap(); k.push(if *z { l } else { l + real(&format!("{name}gap{i}"), gmin, gmax) }) }
        Knots { k, zero }
    }
    /// the same with the given concrete knots
    pub fn concrete(k: Vec<f64>) -> Knots { let zero = k.windows(2).map(|w| w[0] == w[1]).collect(); Knots { k, zero } }
}
/// Every zero/non-zero gap pattern of `len` gaps whose runs of zeros have at most `max_mult` equal knots.
pub fn patterns(len: usize, max_mult: usize) -> Vec<Vec<bool>> {
    let mut r = vec![];
    for m in 0..1usize << len {
        let z: Vec<bool> = (0..len).map(|i| m >> i & 1 == 1).collect();
        let mut run = 1; let mut ok = true;
        for b in &z { if *b { run += 1; if run > max_mult { ok = false } } else { run = 1 } }
        if ok { r.push(z) }
    }
    r
}
/// Clamped knot vector for `degree` and `interior` interior knots (interior multiplicity at most the degree).
pub fn clamped(name: &str, degree: usize, interior: usize) -> Knots { clamped_in(name, degree, interior, -100.0, 100.0, 0.01, 100.0) }
pub fn clamped_in(name: &str, degree: usize, interior: usize, lo: f64, hi: f64, gmin: f64, gmax: f64) -> Knots {
    let mut zero = vec![true; degree];
    if interior == 0 { zero.push(false) } else {
        zero.push(false);
        zero.extend(pick(&format!("{name}pattern"), &patterns(interior - 1, degree.max(1))));
        zero.push(false);
    }
    zero.extend(vec![true; degree]);
    Knots::from_pattern(name, zero, lo, hi, gmin, gmax)
}
/// A parameter in a chosen non-empty span of `kn` among `spans`: returns (span, u) with k_s <= u < k_{s+1}, or u equal to the
/// end of the last span.
pub fn param_in(name: &str, kn: &Knots, spans: &[usize], with_end: bool) -> (usize, f64) {
    let c = choice(&format!("{name}span"), spans.len() + with_end as usize);
    if c == spans.len() { let s = spans[c - 1]; return (s, kn.k[s + 1]) }
    let s = spans[c];
    let u = if is_symbolic(kn.k[s]) || is_symbolic(kn.k[s + 1]) || !SYMBOLIC { real(name, -1e5, 1e5) } else { real(name, kn.k[s], kn.k[s + 1]) };
    assume_le(kn.k[s], u);
    assume_lt(u, kn.k[s + 1]);
    (s, u)
}
/// Cox-de Boor recursion on span `s`: the values of the `count` basis functions of `degree` at `u`.
pub fn cox(kn: &Knots, degree: usize, s: usize, u: f64) -> Vec<f64> {
    let m = kn.k.len();
    let mut n: Vec<f64> = (0..m - 1).map(|i| if i == s { 1.0 } else { 0.0 }).collect();
    for d in 1..=degree {
        let mut next = vec![];
        for i in 0..m - 1 - d {
            let mut v = 0.0;
            if i <= s && s < i + d && !kn.same(i, i + d) { v = v + (u - kn.k[i]) / (kn.k[i + d] - kn.k[i]) * n[i] }
            if i + 1 <= s && s < i + 1 + d && !kn.same(i + 1, i + d + 1) { v = v + (kn.k[i + d + 1] - u) / (kn.k[i + d + 1] - kn.k[i + 1]) * n[i + 1] }
            next.push(v);
        }
        n = next;
    }
    n
}
pub fn fact(k: usize) -> f64 { (1..=k).fold(1.0, |a, i| a * i as f64) }
use geom3d::{Point3, Vec3};
/// Directions with integer length, so that lengths of multiples stay rational.
pub const DIRS: [((f64, f64, f64), f64); 6] = [((1., 0., 0.), 1.), ((0., -1., 0.), 1.), ((3., 4., 0.), 5.), ((1., 2., -2.), 3.), ((-2., 1., 2.), 3.), ((0., 0., 1.), 1.)];
/// A polyline of `n` segments: each is a repeated vertex or runs along one of `dirs` by any length in [0.01,10].
/// Returns the vertices and the exact segment lengths.
pub fn rational_path(name: &str, n: usize, dirs: &[usize], repeats: bool) -> (Vec<Point3>, Vec<f64>) {
    let mut v = vec![Point3::new(1.0, 2.0, -1.0)];
    let mut l = vec![];
    for i in 0..n {
        let c = choice(&format!("{name}dir{i}"), dirs.len() + repeats as usize);
        let last = *v.last().unwrap();
        if c == dirs.len() { v.push(last); l.push(0.0); continue }
        let (d, k) = DIRS[dirs[c]];
        let x = real(&format!("{name}len{i}"), 0.01, 10.0);
        v.push(last + Point3::new(d.0 * x, d.1 * x, d.2 * x)); l.push(k * x);
    }
    (v, l)
}
/// A right-handed orthonormal frame (x, y, z): a concrete rotation times, for `kind` 1 and 2, symbolic rotations.
pub fn frame(name: &str, kinds: usize) -> (Vec3, Vec3, Vec3) {
    let c = choice(&format!("{name}frame"), kinds);
    match c {
        0 => (Vec3::new(1., 0., 0.), Vec3::new(0., 1., 0.), Vec3::new(0., 0., 1.)),
        1 => { let (c, s) = unit(&format!("{name}a")); (Vec3::new(c, s, 0.0), Vec3::new(0.0, 0.0, 1.0), Vec3::new(s, -c, 0.0)) }
        2 => { let (c, s) = unit(&format!("{name}a")); (Vec3::new(0.0, c, s), Vec3::new(0.0, -s, c), Vec3::new(1.0, 0.0, 0.0)) }
        _ => {
            // general: Euler angles
            let (c1, s1) = unit(&format!("{name}a")); let (c2, s2) = unit(&format!("{name}b")); let (c3, s3) = unit(&format!("{name}c"));
            let x = Vec3::new(c1 * c2, s1 * c2, -s2);
            let y = Vec3::new(c1 * s2 * s3 - s1 * c3, s1 * s2 * s3 + c1 * c3, c2 * s3);
            let z = Vec3::new(c1 * s2 * c3 + s1 * s3, s1 * s2 * c3 - c1 * s3, c2 * c3);
            (x, y, z)
        }
    }
}
