//! G23 SVG export draws every curve completely (coordinates to 0.005).
use crate::g20::{line, segment};
use crate::common::*;
use crate::sym::*;
use geom3d::curve::{BSplineCurve, Curve, CurveSegment, Line, Polyline};
use geom3d::{KnotVector, Model, Point2, Point3, Polycurve, TriangleMesh};
pub const LIST: &[(&str, fn())] = &[("g23_pieces", pieces), ("g23_bspline", bspline), ("g23_sampled", sampled), ("g23_page", page), ("g23_paths", paths)];

type Seg = CurveSegment<Box<dyn Curve>>;
const TOL: f64 = 0.005 + 1e-9;
/// Points in the first quadrant, except for one coordinate of either sign, to bound the number of sign cases.
struct Points { signed: usize, next: usize }
impl Points {
    fn one(&mut self, n: &str) -> f64 { self.next += 1; real(n, if self.next - 1 == self.signed { -1000.0 } else { 0.0 }, 1000.0) }
    fn point(&mut self, n: &str) -> Point3 { Point3::new(self.one(&format!("{n}.x")), self.one(&format!("{n}.y")), real(&format!("{n}.z"), -1000.0, 1000.0)) }
}
fn points(signed: usize) -> Points { Points { signed, next: 0 } }
/// A drawn path: every piece with its start.
#[derive(Debug, Clone)]
enum Piece { Move(Point2), Line(Point2, Point2), Cubic(Point2, Point2, Point2, Point2) }
fn number(s: &str) -> f64 { match s.parse::<f64>() { Ok(v) => v, Err(_) => { prove(false, "numbers are written as numbers"); 0.0 } } }
/// path data: M, L and C with absolute coordinates, the letter optional when repeated
fn draw(d: &str) -> Vec<Piece> {
    let mut w: Vec<String> = vec![]; let mut cur = String::new();
    for c in d.chars() {
        let letter = c.is_ascii_alphabetic();
        if letter || c == ',' || c.is_whitespace() { if !cur.is_empty() { w.push(std::mem::take(&mut cur)) } }
        if letter { w.push(c.to_string()) } else if c != ',' && !c.is_whitespace() { cur.push(c) }
    }
    if !cur.is_empty() { w.push(cur) }
    let mut r = vec![]; let mut cmd = ' '; let mut i = 0; let mut at: Option<Point2> = None;
    while i < w.len() {
        if w[i].len() == 1 && w[i].chars().all(|c| c.is_ascii_alphabetic()) { cmd = w[i].chars().next().unwrap(); i += 1 }
        let n = match cmd { 'M' | 'L' => 1, 'C' => 3, _ => { prove(false, "only moves, lines and cubic curves"); return r } };
        prove(i + 2 * n <= w.len(), "all coordinates of a piece are there");
        let p: Vec<Point2> = (0..n).map(|k| Point2::new(number(&w[i + 2 * k]), number(&w[i + 2 * k + 1]))).collect();
        prove(cmd == 'M' || at.is_some(), "a path starts with a move");
        r.push(match cmd { 'M' => Piece::Move(p[0]), 'L' => Piece::Line(at.unwrap(), p[0]), _ => Piece::Cubic(at.unwrap(), p[0], p[1], p[2]) });
        at = Some(p[n - 1]); i += 2 * n;
        if cmd == 'M' { cmd = 'L' }
    }
    r
}
fn attribute<'a>(tag: &'a str, name: &str) -> &'a str {
    let key = format!(" {}=\"", name);
    match tag.find(&key) { Some(i) => { let t = &tag[i + key.len()..]; &t[..t.find('"').unwrap_or(t.len())] } None => { prove(false, "attributes are there"); "" } }
}
/// every element's opening tag
fn tags(t: &str) -> Vec<String> { t.split('<').skip(1).map(|x| x.split('>').next().unwrap().to_string()).collect() }
fn save(curves: Vec<Vec<Seg>>, size: (f64, f64)) -> Vec<Vec<Piece>> {
    let n = curves.len();
    let mut m = Model::<TriangleMesh>::new();
    for c in curves { m.add_curve(Polycurve { segments: c }) }
    prove(m.save_as_svg("a.svg", size).is_ok(), "saving succeeds");
    let t = std::fs::read_to_string("a.svg"); prove(t.is_ok(), "the file can be read"); let t = tags(&t.unwrap());
    let root: Vec<&String> = t.iter().filter(|x| x.starts_with("svg ")).collect(); prove(root.len() == 1, "one document");
    let mm = |n: &str| { let a = attribute(root[0], n); prove(a.ends_with("mm"), "sizes in millimetres"); number(a.trim_end_matches("mm")) };
    prove(mm("width") == size.0 && mm("height") == size.1, "the page has the given size");
    let v: Vec<f64> = attribute(root[0], "viewBox").split_whitespace().map(number).collect();
    prove(v == [0.0, 0.0, size.0, size.1], "the view is the page");
    let groups: Vec<&String> = t.iter().filter(|x| x.starts_with("g ")).collect(); prove(groups.len() == 1, "one group");
    let a = attribute(groups[0], "transform"); prove(a.starts_with("matrix(") && a.ends_with(')'), "flipped by a matrix");
    let v: Vec<f64> = a.trim_start_matches("matrix(").trim_end_matches(')').split([' ', ',']).filter(|x| !x.is_empty()).map(number).collect();
    prove(v == [1.0, 0.0, 0.0, -1.0, 0.0, size.1], "flipped about the page height");
    let p: Vec<Vec<Piece>> = t.iter().filter(|x| x.starts_with("path")).map(|x| draw(attribute(x, "d"))).collect();
    prove(p.len() == n, "one path per polycurve");
    p
}
fn close(a: Point2, b: Point3, m: &str) { near_tol(a.x, b.x, TOL, m); near_tol(a.y, b.y, TOL, m) }
/// the pen arrives at the start of a segment: a move, or a line from the end of the one before (which is the same point)
fn arrive(p: &mut std::vec::IntoIter<Piece>, s: Point3) {
    match p.next() { Some(Piece::Move(a)) | Some(Piece::Line(_, a)) => close(a, s, "a segment starts at its start"), _ => prove(false, "a segment starts with a move") }
}
fn straight(p: &mut std::vec::IntoIter<Piece>, a: Point3, b: Point3) {
    match p.next() { Some(Piece::Line(x, y)) => { close(x, a, "lines start at their start"); close(y, b, "lines end at their end") } _ => prove(false, "every side is drawn by a line") }
}
fn done(mut p: std::vec::IntoIter<Piece>) { prove(p.next().is_none(), "nothing else is drawn") }

/// line segments and polylines in sequence
fn pieces() {
    set_mode(REAL); private_files();
    let n = 1 + choice("segments", if thorough() { 3 } else { 2 });
    let mut pts = points(choice("signed", 5));
    let mut at = pts.point("start"); let mut want: Vec<Vec<Point3>> = vec![]; let mut segs = vec![];
    for i in 0..n {
        let k = choice(&format!("kind{i}"), if thorough() { 5 } else { 4 });
        let v: Vec<Point3> = std::iter::once(at).chain((0..k.max(3) - 2).map(|j| pts.point(&format!("p{i}.{j}")))).collect();
        let (a, b) = (v[0], v[1]);
        segs.push(match k {
            0 => line(a, b),
            1 => segment(Box::new(Line { origin: b, direction: a - b }), (1.0, 0.0)),
            2 => segment(Box::new(Line { origin: a * 1.5 - b * 0.5, direction: (b - a) * 0.25 }), (2.0, 6.0)),
            _ => segment(Box::new(Polyline { vertices: v.clone(), segment_lengths: vec![1.0; v.len() - 1], length: (v.len() - 1) as f64 }), (0.0, 1.0)),
        });
        at = v[v.len() - 1]; want.push(v);
    }
    let p = save(vec![segs], (100.0, 50.0)).pop().unwrap();
    let mut p = p.into_iter();
    for v in want { arrive(&mut p, v[0]); for s in v.windows(2) { straight(&mut p, s[0], s[1]) } }
    done(p);
    reach(0);
}
/// cubic B-splines: a chain of cubic pieces, one for every knot span
fn bspline() {
    set_mode(REAL); private_files();
    let inner = pick("knots", &[vec![], vec![1.0], vec![0.5, 3.0], vec![2.0, 2.0], vec![1.0, 1.0, 2.0], vec![1.0, 1.0, 1.0]]);
    let mut k = vec![0.0; 4]; k.extend(inner.iter()); k.extend(vec![4.0; 4]);
    let mut spans: Vec<f64> = k.clone(); spans.dedup();
    let before = choice("before", 2) == 1;
    let mut pts = points(choice("signed", if thorough() { 2 * (inner.len() + 4) } else { 3 }));
    let cps: Vec<Point3> = (0..inner.len() + 4).map(|i| pts.point(&format!("p{i}"))).collect();
    let c = || BSplineCurve { control_points: cps.clone(), knots: KnotVector(k.clone()), degree: 3 };
    let a = Point3::new(3.0, 4.0, 0.0);
    let mut segs = vec![]; if before { segs.push(line(a, cps[0])) }
    segs.push(segment(Box::new(c()), (0.0, 4.0)));
    let p = save(vec![segs], (100.0, 50.0)).pop().unwrap();
    let mut p = p.into_iter();
    if before { arrive(&mut p, a); straight(&mut p, a, cps[0]) }
    arrive(&mut p, cps[0]);
    for s in spans.windows(2) {
        match p.next() {
            Some(Piece::Cubic(b0, b1, b2, b3)) => for t in [0.0, 0.25, 0.5, 0.75, 1.0] {
                let q = b0 * ((1. - t) * (1. - t) * (1. - t)) + b1 * (3. * t * (1. - t) * (1. - t)) + b2 * (3. * t * t * (1. - t)) + b3 * (t * t * t);
                close(q, c().get_point(s[0] + (s[1] - s[0]) * t), "pieces reproduce the curve");
            },
            _ => prove(false, "every span is drawn by a cubic piece"),
        }
    }
    done(p);
    reach(0);
}
#[derive(Debug)]
struct Parabola(f64, Point3);
impl Curve for Parabola {
    fn get_point(&self, u: f64) -> Point3 { self.1 + Point3::new(u, self.0 * u * u, 0.0) }
    fn project(&self, _: Point3) -> f64 { 0.0 }
}
/// other curves: through points of the curve, in order, from end to end; alone or behind a line
fn sampled() {
    set_mode(REAL); private_files();
    let k = real("k", 0.005, 0.04); let o = Point3::new(real("o.x", 2.0, 100.0), real("o.y", 0.0, 100.0), 1.0);
    let kind = choice("kind", 5);
    // y = k x^2 for x in -1..1, in either direction
    let back = choice("back", 2) == 1;
    let v = |x: f64, y: f64| o + Point3::new(x, y * k, 0.0);
    let ends = |n: usize, inner: &[f64]| { let mut u = vec![-1.0; n + 1]; u.extend(inner); u.extend(vec![1.0; n + 1]); KnotVector(u) };
    // the same parabola in other forms: of degree 2, of 4 and 5, in two spans
    let curve: Box<dyn Curve> = match kind {
        0 => Box::new(Parabola(k, o)),
        1 => Box::new(BSplineCurve { control_points: vec![v(-1., 1.), v(0., -1.), v(1., 1.)], knots: ends(2, &[]), degree: 2 }),
        2 => Box::new(BSplineCurve { control_points: vec![v(-1., 1.), v(-0.5, 0.), v(0., -1. / 3.), v(0.5, 0.), v(1., 1.)], knots: ends(4, &[]), degree: 4 }),
        3 => Box::new(BSplineCurve { control_points: vec![v(-1., 1.), v(-0.6, 0.2), v(-0.2, -0.2), v(0.2, -0.2), v(0.6, 0.2), v(1., 1.)], knots: ends(5, &[]), degree: 5 }),
        _ => Box::new(BSplineCurve { control_points: vec![v(-1., 1.), v(-0.5, 0.), v(0.5, 0.), v(1., 1.)], knots: ends(2, &[0.0]), degree: 2 }),
    };
    let (s, e) = (o + Point3::new(-1., k, 0.), o + Point3::new(1., k, 0.));
    let (s, e, r) = if back { (e, s, (1.0, -1.0)) } else { (s, e, (-1.0, 1.0)) };
    let before = choice("before", 2) == 1; let after = choice("after", 2) == 1;
    let (a, z) = (Point3::new(1., 2., 3.), Point3::new(150., 2., 3.));
    let mut segs = vec![]; if before { segs.push(line(a, s)) }
    segs.push(segment(curve, r));
    if after { segs.push(line(e, z)) }
    let p = save(vec![segs], (100.0, 50.0)).pop().unwrap();
    let n = p.len(); let mut p = p.into_iter();
    if before { arrive(&mut p, a); straight(&mut p, a, s) }
    let m = n - if before { 2 } else { 0 } - if after { 2 } else { 0 };
    prove(n >= 2 + if before { 2 } else { 0 } + if after { 2 } else { 0 }, "at least both ends");
    let mut last: Option<Point2> = None;
    for i in 0..m {
        let q = match p.next() { Some(Piece::Move(q)) if i == 0 => q, Some(Piece::Line(_, q)) => q, _ => { prove(false, "sampled points are joined by lines"); return } };
        if i == 0 { close(q, s, "drawn from the start") }
        if i == m - 1 { close(q, e, "drawn to the end") }
        let d = Point2::new(q.x - o.x, q.y - o.y);
        near_tol(d.y, k * d.x * d.x, 0.005 * 1.1, "drawn through points of the curve");
        if let Some(l) = last { if back { lt(q.x, l.x, "points in order") } else { lt(l.x, q.x, "points in order") } }
        last = Some(q);
    }
    if after { arrive(&mut p, e); straight(&mut p, e, z) }
    done(p);
    reach(if m > 3 { 1 } else { 0 });
}
/// the page, for several sizes
fn page() {
    set_mode(REAL); private_files();
    let size = pick("size", &[(100.0, 50.0), (210.0, 297.0), (80.5, 40.25), (1.0, 0.6), (0.3, 0.4), (12345.678, 99999.5)]);
    let mut pts = points(0); let (a, b) = (pts.point("a"), pts.point("b"));
    let p = save(vec![vec![line(a, b)]], size).pop().unwrap();
    let mut p = p.into_iter(); arrive(&mut p, a); straight(&mut p, a, b); done(p);
    reach(0);
}
/// several polycurves, empty ones included; faces are not drawn
fn paths() {
    set_mode(REAL); private_files();
    let n = choice("curves", 4);
    let mut pts = points(choice("signed", 3)); let mut want = vec![]; let mut c = vec![];
    for i in 0..n {
        let k = choice(&format!("segments{i}"), 3);
        let v: Vec<Point3> = (0..k + 1).map(|j| pts.point(&format!("c{i}.{j}"))).collect();
        c.push(v.windows(2).map(|s| line(s[0], s[1])).collect()); want.push(v);
    }
    for (p, v) in save(c, (30.0, 20.0)).into_iter().zip(want) {
        let mut p = p.into_iter();
        for s in v.windows(2) { arrive(&mut p, s[0]); straight(&mut p, s[0], s[1]) }
        done(p);
    }
    reach(0);
}
