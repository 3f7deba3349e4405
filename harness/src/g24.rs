//! G24 STEP import reproduces the geometry described in the file (a symbolic number prints as a token).
use crate::common::*;
use crate::sym::*;
use geom3d::model::StepReader;
use geom3d::curve::{BSplineCurve, Circle, Curve, CurveSegment, Line, Polyline};
use geom3d::surface::{BSplineSurface, BezierSurface, Cylinder, Plane, SpinSurface, Surface, TrimmedSurface};
use geom3d::{Model, Point3, Point4, Vec3};
pub const LIST: &[(&str, fn())] = &[("g24_loop", edge_loop), ("g24_bounds", bounds), ("g24_circle", circle), ("g24_curved", curved), ("g24_composite", composite), ("g24_plane", plane), ("g24_axes", axes), ("g24_spin", spin), ("g24_patches", patches), ("g24_faces", faces)];

type Seg = CurveSegment<Box<dyn Curve>>;
type Face = TrimmedSurface<Box<dyn Surface>>;
/// The text of a file under construction.
struct File { t: String, n: usize }
fn num(x: f64) -> String { let s = format!("{}", x); if s.contains('.') { s } else { s + "." } }
fn nums(x: &[f64]) -> String { x.iter().map(|v| num(*v)).collect::<Vec<_>>().join(",") }
fn refs(x: &[usize]) -> String { x.iter().map(|v| format!("#{v}")).collect::<Vec<_>>().join(",") }
fn tf(b: bool) -> &'static str { if b { ".T." } else { ".F." } }
impl File {
    fn new() -> File { File { t: "ISO-10303-21;\nHEADER;\nFILE_DESCRIPTION((''),'2;1');\nFILE_NAME('a','',(''),(''),'','','');\nFILE_SCHEMA(('AUTOMOTIVE_DESIGN'));\nENDSEC;\nDATA;\n".into(), n: 0 } }
    fn add(&mut self, e: String) -> usize { self.n += 1; self.t += &format!("#{}={};\n", self.n, e); self.n }
    fn point(&mut self, p: Point3) -> usize { self.add(format!("CARTESIAN_POINT('',({}))", nums(&[p.x, p.y, p.z]))) }
    fn points(&mut self, p: &[Point3]) -> String { let v: Vec<usize> = p.iter().map(|q| self.point(*q)).collect(); format!("({})", refs(&v)) }
    fn direction(&mut self, p: Vec3) -> usize { self.add(format!("DIRECTION('',({}))", nums(&[p.x, p.y, p.z]))) }
    fn optional(&mut self, p: Option<Vec3>) -> String { match p { Some(d) => format!("#{}", self.direction(d)), None => "$".into() } }
    fn axes(&mut self, o: Point3, z: Option<Vec3>, x: Option<Vec3>) -> usize { let o = self.point(o); let z = self.optional(z); let x = self.optional(x); self.add(format!("AXIS2_PLACEMENT_3D('',#{o},{z},{x})")) }
    fn vertex(&mut self, p: Point3) -> usize { let p = self.point(p); self.add(format!("VERTEX_POINT('',#{p})")) }
    fn line(&mut self, o: Point3, d: Vec3, m: f64) -> usize { let o = self.point(o); let d = self.direction(d); let v = self.add(format!("VECTOR('',#{d},{})", num(m))); self.add(format!("LINE('',#{o},#{v})")) }
    fn circle(&mut self, o: Point3, z: Option<Vec3>, x: Option<Vec3>, r: f64) -> usize { let a = self.axes(o, z, x); self.add(format!("CIRCLE('',#{a},{})", num(r))) }
    fn polyline(&mut self, v: &[Point3]) -> usize { let p = self.points(v); self.add(format!("POLYLINE('',{p})")) }
    fn bspline(&mut self, degree: usize, v: &[Point3], mult: &[usize], knots: &[f64]) -> usize {
        let p = self.points(v);
        self.add(format!("B_SPLINE_CURVE_WITH_KNOTS('',{degree},{p},.UNSPECIFIED.,.F.,.U.,({}),({}),.UNSPECIFIED.)", mult.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(","), nums(knots)))
    }
    fn edge(&mut self, a: usize, b: usize, curve: usize, sense: bool) -> usize { self.add(format!("EDGE_CURVE('',#{a},#{b},#{curve},{})", tf(sense))) }
    fn oriented(&mut self, e: usize, o: bool) -> usize { self.add(format!("ORIENTED_EDGE('',*,*,#{e},{})", tf(o))) }
    fn bound(&mut self, outer: bool, edges: &[usize], o: bool) -> usize { let l = self.add(format!("EDGE_LOOP('',({}))", refs(edges))); self.add(format!("{}('',#{l},{})", if outer { "FACE_OUTER_BOUND" } else { "FACE_BOUND" }, tf(o))) }
    fn face(&mut self, bounds: &[usize], surface: usize, sense: bool) -> usize { self.add(format!("ADVANCED_FACE('',({}),#{surface},{})", refs(bounds), tf(sense))) }
    fn read(mut self) -> Model<Face> {
        self.t += "ENDSEC;\nEND-ISO-10303-21;\n";
        std::fs::write("a.stp", &self.t).unwrap();
        let m = StepReader::read_model("a.stp"); prove(m.is_ok(), "reading succeeds"); m.ok().unwrap()
    }
}
/// Coordinates that are not negative, except for one of either sign, to bound the number of sign cases.
struct Coords { signed: usize, next: usize }
fn coords(signed: usize) -> Coords { Coords { signed, next: 0 } }
impl Coords {
    fn one(&mut self, n: &str) -> f64 { self.next += 1; real(n, if self.next - 1 == self.signed { -1000.0 } else { 0.0 }, 1000.0) }
    fn point(&mut self, n: &str) -> Point3 { Point3::new(self.one(&format!("{n}.x")), self.one(&format!("{n}.y")), self.one(&format!("{n}.z"))) }
    fn points(&mut self, n: &str, k: usize) -> Vec<Point3> { (0..k).map(|i| self.point(&format!("{n}{i}"))).collect() }
}
const TOL: f64 = 1e-6;
fn same3(a: Point3, b: Point3, m: &str) { near3_tol(a, b, TOL, m) }
fn f_near(a: f64, b: f64) -> F { f_and(f_cmp(a, b + TOL, LE), f_cmp(b - TOL, a, LE)) }
fn f_near3(a: Point3, b: Point3) -> F { f_all([f_near(a.x, b.x), f_near(a.y, b.y), f_near(a.z, b.z)]) }
fn ends(s: &Seg) -> (Point3, Point3) { (s.curve.get_point(s.parameter_range.0), s.curve.get_point(s.parameter_range.1)) }
/// The loop visits these corners in this cyclic order.
fn check_loop(edges: &[Seg], corners: &[Point3]) {
    let n = corners.len();
    prove(edges.len() == n, "every edge of the loop is read");
    let e: Vec<(Point3, Point3)> = edges.iter().map(ends).collect();
    for i in 0..n { same3(e[i].1, e[(i + 1) % n].0, "consecutive edges connect") }
    prove_f(f_any((0..n).map(|r| f_all((0..n).map(|i| f_near3(e[i].0, corners[(i + r) % n]))))), "edges run from corner to corner in loop order");
}
fn direction(a: Point3, b: Point3, lens: f64) -> Vec3 { (b - a) * (1.0 / lens) }
/// Writes a loop of straight edges; `dirs` are the concrete directions of its sides. `orient`, `sense`: bit masks.
fn write_loop(f: &mut File, outer: bool, corners: &[Point3], dirs: &[Vec3], orient: usize, sense: usize, bound: bool) -> usize {
    let n = corners.len();
    let v: Vec<usize> = corners.iter().map(|c| f.vertex(*c)).collect();
    let mut list = vec![];
    for i in 0..n {
        let j = (i + 1) % n; let (o, s) = (orient >> i & 1 == 0, sense >> i & 1 == 0);
        // the edge runs along the loop or against it, the line along the edge or against it; the line starts at either end
        let (a, b) = if o { (i, j) } else { (j, i) };
        let d = if o == s { dirs[i] } else { -dirs[i] };
        let l = f.line(corners[if i % 2 == 0 { i } else { j }], d, [1.0, 2.5][i % 2]);
        let e = f.edge(v[a], v[b], l, s);
        // a bound that is not oriented lists the reversed loop
        list.push(f.oriented(e, o == bound));
    }
    if !bound { list.reverse() }
    f.bound(outer, &list, bound)
}
/// a rectangle or 3-4-5 triangle at any place and of any size, in the plane z = const
fn shape(kind: usize, c: &mut Coords, n: &str) -> (Vec<Point3>, Vec<Vec3>) {
    let o = c.point(&format!("{n}o")); let w = real(&format!("{n}w"), 0.5, 50.0);
    if kind == 0 {
        let h = real(&format!("{n}h"), 0.5, 50.0);
        (vec![o, o + Vec3::X * w, o + Vec3::X * w + Vec3::Y * h, o + Vec3::Y * h], vec![Vec3::X, Vec3::Y, -Vec3::X, -Vec3::Y])
    } else { (vec![o, o + Vec3::X * (4.0 * w), o + Vec3::Y * (3.0 * w)], vec![Vec3::X, Vec3::new(-0.8, 0.6, 0.0), -Vec3::Y]) }
}
fn one_face(f: File) -> Face { let mut m = f.read(); prove(m.faces.len() == 1, "one face per advanced face"); prove(m.curves.is_empty(), "no composite curves"); m.faces.pop().unwrap() }
/// orientation of edges, curves and bounds
fn edge_loop() {
    set_mode(REAL); private_files();
    let kind = choice("shape", 2); let n = 4 - kind;
    let mut c = coords(choice("signed", if thorough() { 3 } else { 1 }));
    let (v, d) = shape(kind, &mut c, "");
    let (orient, sense) = (choice("orientation", 1 << n), choice("sense", 1 << n));
    let (outer, bound) = (choice("outer", 2) == 0, choice("bound", 2) == 0);
    let mut f = File::new();
    let b = write_loop(&mut f, outer, &v, &d, orient, sense, bound);
    let a = f.axes(v[0], Some(Vec3::Z), Some(Vec3::X)); let p = f.add(format!("PLANE('',#{a})"));
    f.face(&[b], p, true);
    let face = one_face(f);
    prove(face.bounds.len() == 1, "every bound is read");
    check_loop(&face.bounds[0].edges, &v);
    reach(0);
}
/// a face with an outer bound and holes: all of them, once
fn bounds() {
    set_mode(REAL); private_files();
    let mut c = coords(choice("signed", 3));
    let holes = choice("holes", 3); let mut f = File::new();
    let (o, d) = shape(0, &mut c, "a");
    let swap = choice("outer", 3); // which kinds of bounds
    let mut list = vec![write_loop(&mut f, swap != 2, &o, &d, 5, 9, true)];
    let mut want = vec![o.clone()];
    for i in 0..holes {
        let (mut v, mut d) = shape(1 - i, &mut c, &format!("h{i}")); v.reverse(); d.reverse(); let r = d.remove(0); d.push(r); d.iter_mut().for_each(|x| *x = -*x);
        list.push(write_loop(&mut f, false, &v, &d, 2, 3, i == 0)); want.push(v);
    }
    if swap == 1 { list.reverse() }
    let a = f.axes(o[0], Some(Vec3::Z), Some(Vec3::X)); let p = f.add(format!("PLANE('',#{a})"));
    f.face(&list, p, true);
    let face = one_face(f);
    prove(face.bounds.len() == want.len(), "every bound is read");
    // the loops in some order: told apart by what they visit
    for w in &want {
        let n = w.len();
        let mut is = vec![];
        for b in &face.bounds {
            let e: Vec<(Point3, Point3)> = b.edges.iter().map(ends).collect();
            for i in 0..e.len() { same3(e[i].1, e[(i + 1) % e.len()].0, "consecutive edges connect") }
            is.push(if e.len() == n { f_any((0..n).map(|r| f_all((0..n).map(|i| f_near3(e[i].0, w[(i + r) % n]))))) } else { f_const(false) });
        }
        prove_f(f_any(is), "every bound is read with its corners");
    }
    reach(0);
}
/// frames as written: axis and reference direction of any length, not orthogonal, or left out; and the frame meant
fn written_frame(k: usize) -> (Option<Vec3>, Option<Vec3>, Vec3, Vec3) {
    let v = Vec3::new;
    match k {
        0 => (Some(Vec3::Z), Some(Vec3::X), Vec3::Z, Vec3::X),
        1 => (None, None, Vec3::Z, Vec3::X),
        2 => (Some(v(0., 0., 1.)), Some(v(0., 2., 0.)), Vec3::Z, Vec3::Y),
        3 => (Some(v(0., 3., 0.)), None, Vec3::Y, Vec3::X),
        4 => (Some(v(0., -1., 0.)), Some(v(3., 0., 4.)), -Vec3::Y, v(0.6, 0., 0.8)),
        5 => (None, Some(v(1., 1., 5.)), Vec3::Z, v(0.5f64.sqrt(), 0.5f64.sqrt(), 0.)),
        6 => (Some(v(2., 2., 1.)), Some(v(-2., 1., 2.)), v(2., 2., 1.) / 3., v(-2., 1., 2.) / 3.),
        _ => (Some(v(1., 0., 0.)), Some(v(4., 0., -2.)), Vec3::X, -Vec3::Z),
    }
}
const FRAMES: usize = 8;
/// circle edges: arcs between any two points of the circle, and whole circles
fn circle() {
    set_mode(REAL); private_files();
    let (wz, wx, z, x) = written_frame(choice("frame", if thorough() { FRAMES } else { 4 }));
    let y = z.cross(x);
    let mut c = coords(choice("signed", 4)); let o = c.point("o") + Vec3::new(200., 200., 200.); let r = real("r", 0.1, 100.0); // away from the coordinate planes, but for one
    let at = |a: (f64, f64)| o + (x * a.0 + y * a.1) * r;
    let places = [(1.0, 0.0), (0.6, 0.8), (-0.6, 0.8), (-1.0, 0.0), (-0.8, -0.6), (0.0, -1.0), (0.8, -0.6)];
    let i = choice("from", if thorough() { 7 } else { 4 }); let j = choice("to", if thorough() { 7 } else { 4 });
    let (i, j) = if thorough() { (i, j) } else { ([0, 1, 3, 5][i], [0, 2, 4, 5][j]) };
    let (s, e) = (at(places[i]), at(places[j]));
    let (orientation, sense) = (choice("orientation", 2) == 0, choice("sense", 2) == 0);
    let mut f = File::new();
    let (vs, ve) = { let a = f.vertex(s); (a, if i == j { a } else { f.vertex(e) }) };
    let k = f.circle(o, wz, wx, r); let ed = f.edge(vs, ve, k, sense); let oe = f.oriented(ed, orientation); let b = f.bound(true, &[oe], true);
    let a = f.axes(o, wz, wx); let p = f.add(format!("PLANE('',#{a})"));
    f.face(&[b], p, true);
    let face = one_face(f);
    prove(face.bounds.len() == 1 && face.bounds[0].edges.len() == 1, "the circle is read");
    let g = &face.bounds[0].edges[0];
    match (*g.curve).downcast_ref::<Circle>() {
        Some(q) => { same3(q.center, o, "the centre"); near_tol(q.radius, r, TOL, "the radius"); same3(q.axis, z, "the axis"); same3(q.ref_dir, x, "the reference direction") }
        None => prove(false, "a circle"),
    }
    let (from, to) = if orientation { (s, e) } else { (e, s) };
    let (p, q) = ends(g);
    same3(p, from, "arcs start at their start"); same3(q, to, "arcs end at their end");
    let (u0, u1) = g.parameter_range;
    let (lo, hi) = if sense == orientation { (u0, u1) } else { (u1, u0) };
    lt(lo, hi, "arcs run in the sense of the edge"); le(hi - lo, geom3d::consts::TAU + 1e-9, "arcs stay within one turn");
    if i == j { le(geom3d::consts::TAU - 1e-9, hi - lo, "a closed edge is the whole circle") }
    reach(0);
}
fn knots(n: &str, c: &mut Coords, k: usize) -> Vec<f64> {
    let mut t = vec![c.one(&format!("{n}0"))];
    for i in 1..k { let l = t[i - 1]; t.push(l + real(&format!("{n}{i}"), 0.01, 10.0)) }
    t
}
fn expand(t: &[f64], m: &[usize]) -> Vec<f64> { t.iter().zip(m).flat_map(|(t, m)| vec![*t; *m]).collect() }
fn same_knots(a: &geom3d::KnotVector, b: &[f64]) { prove(a.0.len() == b.len(), "as many knots as the multiplicities say"); for i in 0..b.len() { near_tol(a.0[i], b[i], TOL, "the knots") } }
/// (degree, multiplicities)
const SHAPES: [(usize, &[usize]); 5] = [(1, &[2, 2]), (2, &[3, 3]), (3, &[4, 4]), (2, &[3, 1, 3]), (3, &[4, 2, 1, 4])];
fn same_bspline(c: &dyn Curve, degree: usize, v: &[Point3], t: &[f64]) {
    match c.downcast_ref::<BSplineCurve<Point3>>() {
        Some(q) => {
            prove(q.degree as usize == degree, "the degree"); prove(q.control_points.len() == v.len(), "every control point");
            for i in 0..v.len() { same3(q.control_points[i], v[i], "control points in order") }
            same_knots(&q.knots, t);
        }
        None => prove(false, "a B-spline curve"),
    }
}
fn same_polyline(c: &dyn Curve, v: &[Point3]) {
    match c.downcast_ref::<Polyline>() {
        Some(q) => { prove(q.vertices.len() == v.len(), "every vertex"); for i in 0..v.len() { same3(q.vertices[i], v[i], "vertices in order") } }
        None => prove(false, "a polyline"),
    }
}
/// open polylines and B-splines as edges, anywhere: from vertex to vertex in either direction
fn curved() {
    set_mode(REAL); private_files();
    let mut c = coords(choice("signed", 3)); let o = c.point("o");
    let shape: Vec<Point3> = vec![Point3::new(0., 0., 0.), Point3::new(1., 2., 0.), Point3::new(3., 2., 0.5), Point3::new(4., 0., 1.)];
    let kind = choice("curve", 3);
    let v: Vec<Point3> = shape.iter().take(if kind == 1 { 3 } else { 4 }).map(|p| o + *p).collect();
    let (a, b) = (v[0], v[v.len() - 1]);
    let (orientation, sense) = (choice("orientation", 2) == 0, choice("sense", 2) == 0);
    let mut f = File::new();
    let k = match kind { 0 => f.polyline(&v), 1 => f.bspline(1, &v, &[2, 1, 2], &[0., 1., 3.]), _ => f.bspline(3, &v, &[4, 4], &[0., 1.]) };
    let (s, e) = if sense { (a, b) } else { (b, a) };
    let (vs, ve) = (f.vertex(s), f.vertex(e));
    let ed = f.edge(vs, ve, k, sense); let oe = f.oriented(ed, orientation); let bd = f.bound(true, &[oe], true);
    let ax = f.axes(o, None, None); let p = f.add(format!("PLANE('',#{ax})"));
    f.face(&[bd], p, true);
    let face = one_face(f);
    prove(face.bounds.len() == 1 && face.bounds[0].edges.len() == 1, "the edge is read");
    let g = &face.bounds[0].edges[0];
    if kind == 0 { same_polyline(&*g.curve, &v) }
    let (from, to) = if orientation { (s, e) } else { (e, s) };
    let (p, q) = ends(g);
    near3_tol(p, from, 1e-4, "edges start at their start"); near3_tol(q, to, 1e-4, "edges end at their end");
    reach(0);
}
/// composite curves of trimmed curves
fn composite() {
    set_mode(REAL); private_files();
    let n = 1 + choice("segments", 3);
    let mut c = coords(choice("signed", if thorough() { 4 } else { 2 })); let mut f = File::new();
    if !thorough() { assume(n != 2) }
    let (senses, trims) = (choice("same_sense", if n == 1 { 2 } else { 4 }), choice("trims", 3));
    let first = choice("kind", 4);
    let shape = choice("shape", 5);
    let (dir, agree) = (if thorough() { choice("direction", 3) } else { shape % 3 }, choice("agree", 2) == 0);
    enum W { Line(Point3, Vec3), Circle(Point3, f64, Vec3, Vec3), Poly(Vec<Point3>), Spline(usize, Vec<Point3>, Vec<f64>) }
    let mut want: Vec<(W, f64, f64)> = vec![]; let mut list = vec![];
    for i in 0..n {
        let nm = |s: &str| format!("{s}{i}");
        let (curve, w) = match (first + i) % 4 {
            0 => {
                let o = c.point(&nm("o")); let m = real(&nm("m"), 0.1, 10.0);
                let d = [Vec3::X, Vec3::new(0., -0.6, 0.8), Vec3::new(2., 2., -1.)][dir];
                (f.line(o, d, m), W::Line(o, d.normalize() * m))
            }
            1 => {
                let (wz, wx, z, x) = written_frame([1, 4, 6][dir]); let o = c.point(&nm("o")); let r = real(&nm("r"), 0.1, 100.0);
                (f.circle(o, wz, wx, r), W::Circle(o, r, z, x))
            }
            2 => { let v = c.points(&nm("p"), 2 + shape % 3); (f.polyline(&v), W::Poly(v)) }
            _ => {
                let (deg, m) = SHAPES[shape]; let total: usize = m.iter().sum();
                let v = c.points(&nm("p"), total - deg - 1); let t = knots(&nm("k"), &mut c, m.len());
                (f.bspline(deg, &v, m, &t), W::Spline(deg, v, expand(&t, m)))
            }
        };
        let (mut u0, mut u1) = (c.one(&nm("u")), c.one(&nm("v")));
        if let W::Circle(..) = w {
            // the arc from the first to the second parameter, in the direction agreed
            let a = [0.5, 4.0, 1.0][dir]; let b = [2.0, 1.5, 1.0][dir]; u0 = a; u1 = b;
        }
        let a = f.point(Point3::new(1., 2., 3.)); let b = f.point(Point3::new(4., 5., 6.));
        let (t1, t2) = match trims { 0 => (format!("PARAMETER_VALUE({})", num(u0)), format!("PARAMETER_VALUE({})", num(u1))), 1 => (format!("#{a},PARAMETER_VALUE({})", num(u0)), format!("#{b},PARAMETER_VALUE({})", num(u1))), _ => (format!("PARAMETER_VALUE({}),#{a}", num(u0)), format!("PARAMETER_VALUE({}),#{b}", num(u1))) };
        let t = f.add(format!("TRIMMED_CURVE('',#{curve},({t1}),({t2}),{},.PARAMETER.)", tf(agree)));
        let same = senses >> i.min(1) & 1 == 0;
        list.push(f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,{},#{t})", tf(same))));
        if let W::Circle(..) = w { let tau = geom3d::consts::TAU; if agree && u0 >= u1 { u1 += tau } if !agree && u0 <= u1 { u0 += tau } }
        want.push(if same { (w, u0, u1) } else { (w, u1, u0) });
    }
    f.add(format!("COMPOSITE_CURVE('',({}),.F.)", refs(&list)));
    let m = f.read();
    prove(m.curves.len() == 1 && m.faces.is_empty(), "one polycurve per composite curve");
    let s = &m.curves[0].segments; prove(s.len() == n, "every segment is read");
    for (s, (w, u0, u1)) in s.iter().zip(want) {
        near_tol(s.parameter_range.0, u0, TOL, "trimmed from the first parameter"); near_tol(s.parameter_range.1, u1, TOL, "trimmed to the second parameter");
        match w {
            W::Line(o, d) => match (*s.curve).downcast_ref::<Line>() { Some(l) => { same3(l.origin, o, "the line's point"); same3(l.direction, d, "the line's vector") } None => prove(false, "a line") },
            W::Circle(o, r, z, x) => match (*s.curve).downcast_ref::<Circle>() { Some(q) => { same3(q.center, o, "the centre"); near_tol(q.radius, r, TOL, "the radius"); same3(q.axis, z, "the axis"); same3(q.ref_dir, x, "the reference direction") } None => prove(false, "a circle") },
            W::Poly(v) => same_polyline(&*s.curve, &v),
            W::Spline(d, v, t) => same_bspline(&*s.curve, d, &v, &t),
        }
    }
    reach(0);
}
fn surface_face(mut f: File, s: usize, sense: bool, corner: Point3) -> Face {
    let b = write_loop(&mut f, true, &[corner, corner + Vec3::X, corner + Vec3::X + Vec3::Y, corner + Vec3::Y], &[Vec3::X, Vec3::Y, -Vec3::X, -Vec3::Y], 0, 0, true);
    f.face(&[b], s, sense);
    let face = one_face(f); prove(face.bounds.len() == 1 && face.bounds[0].edges.len() == 4, "the bound is read"); face
}
fn plane() {
    set_mode(REAL); private_files();
    let (wz, wx, z, x) = written_frame(choice("frame", FRAMES)); let sense = choice("sense", 2) == 0;
    let mut c = coords(choice("signed", 3)); let o = c.point("o");
    let mut f = File::new(); let a = f.axes(o, wz, wx); let s = f.add(format!("PLANE('',#{a})"));
    let face = surface_face(f, s, sense, o);
    match (*face.surface).downcast_ref::<Plane>() {
        Some(p) => {
            let z = if sense { z } else { -z };
            same3(p.origin, o, "the plane's origin"); same3(p.normal, z, "the plane's normal, turned for a reversed face"); same3(p.u_axis, x, "the plane's first axis"); same3(p.v_axis, z.cross(x), "the axes are right-handed about the normal");
        }
        None => prove(false, "a plane"),
    }
    reach(0);
}
fn axes() {
    set_mode(REAL); private_files();
    let (wz, wx, z, x) = written_frame(choice("frame", FRAMES)); let sense = choice("sense", 2) == 0;
    let mut c = coords(choice("signed", 3)); let o = c.point("o"); let r = real("r", 0.1, 1000.0);
    let mut f = File::new(); let a = f.axes(o, wz, wx); let s = f.add(format!("CYLINDRICAL_SURFACE('',#{a},{})", num(r)));
    let face = surface_face(f, s, sense, o);
    match (*face.surface).downcast_ref::<Cylinder>() {
        Some(p) => { same3(p.origin, o, "the cylinder's origin"); same3(p.axis, z, "the cylinder's axis"); same3(p.ref_dir, x, "the cylinder's reference direction"); near_tol(p.radius, r, TOL, "the radius") }
        None => prove(false, "a cylinder"),
    }
    reach(0);
}
/// surfaces of revolution of a line, circle or B-spline
fn spin() {
    set_mode(REAL); private_files();
    let mut c = coords(choice("signed", 4)); let o = c.point("o");
    let (w, z) = pick("axis", &[(Some(Vec3::Z), Vec3::Z), (None, Vec3::Z), (Some(Vec3::new(0., 3., -4.)), Vec3::new(0., 0.6, -0.8))]);
    let mut f = File::new();
    let k = choice("section", 3); let p = c.point("p"); let v = c.points("c", 4);
    let sec = match k { 0 => f.line(p, Vec3::X, 1.0), 1 => f.circle(p, None, None, 2.0), _ => f.bspline(3, &v, &[4, 4], &[0., 1.]) };
    let po = f.point(o); let d = f.optional(w); let a = f.add(format!("AXIS1_PLACEMENT('',#{po},{d})"));
    let s = f.add(format!("SURFACE_OF_REVOLUTION('',#{sec},#{a})"));
    let face = surface_face(f, s, true, o);
    match (*face.surface).downcast_ref::<SpinSurface<Box<dyn Curve>>>() {
        Some(q) => {
            same3(q.origin, o, "the origin on the axis"); same3(q.axis, z, "the axis");
            match k {
                0 => match (*q.section).downcast_ref::<Line>() { Some(l) => { same3(l.origin, p, "the section"); same3(l.direction, Vec3::X, "the section") } None => prove(false, "a line") },
                1 => match (*q.section).downcast_ref::<Circle>() { Some(l) => same3(l.center, p, "the section"), None => prove(false, "a circle") },
                _ => same_bspline(&*q.section, 3, &v, &[0., 0., 0., 0., 1., 1., 1., 1.]),
            }
        }
        None => prove(false, "a surface of revolution"),
    }
    reach(0);
}
/// Bezier and B-spline surfaces: control points by rows, weights, knots, degrees
fn patches() {
    set_mode(REAL); private_files();
    let kind = choice("kind", 5);
    // (u, v) as (degree, multiplicities)
    let (su, sv): ((usize, &[usize]), (usize, &[usize])) = pick("shape", &[(SHAPES[0], SHAPES[1]), (SHAPES[1], SHAPES[0]), (SHAPES[3], SHAPES[0]), (SHAPES[0], SHAPES[3]), (SHAPES[0], SHAPES[4]), (SHAPES[3], (2, &[3, 2, 3])), ((2, &[3, 2, 3]), SHAPES[3])]);
    let (du, dv) = (su.0, sv.0);
    let (n, m) = if kind == 0 { (du + 1, dv + 1) } else { (su.1.iter().sum::<usize>() - du - 1, sv.1.iter().sum::<usize>() - dv - 1) };
    let mut c = coords([0, 1, 2, 3 * n * m - 1, 3 * n * m][choice("signed", if thorough() { 5 } else { 2 }) * if thorough() { 1 } else { 3 }]);
    let p = c.points("p", n * m);
    let (tu, tv) = (knots("u", &mut c, su.1.len()), knots("v", &mut c, sv.1.len()));
    let w: Vec<f64> = (0..n * m).map(|i| real(&format!("w{i}"), 0.1, 10.0)).collect();
    let mut f = File::new();
    let rows: Vec<String> = p.chunks(m).map(|r| f.points(r)).collect(); let rows = rows.join(",");
    let wrows: Vec<String> = w.chunks(m).map(|r| format!("({})", nums(r))).collect(); let wrows = wrows.join(",");
    let ints = |m: &[usize]| m.iter().map(|m| m.to_string()).collect::<Vec<_>>().join(",");
    let base = format!("{du},{dv},({rows}),.UNSPECIFIED.,.F.,.F.,.U.");
    let kn = format!("({}),({}),({}),({}),.UNSPECIFIED.", ints(su.1), ints(sv.1), nums(&tu), nums(&tv));
    let s = f.add(match kind {
        0 => format!("BEZIER_SURFACE('',{base})"),
        1 => format!("B_SPLINE_SURFACE_WITH_KNOTS('',{base},{kn})"),
        2 => format!("(BOUNDED_SURFACE() B_SPLINE_SURFACE({base}) B_SPLINE_SURFACE_WITH_KNOTS({kn}) GEOMETRIC_REPRESENTATION_ITEM() RATIONAL_B_SPLINE_SURFACE(({wrows})) REPRESENTATION_ITEM('') SURFACE())"),
        3 => format!("B_SPLINE_SURFACE('',{base})"),
        _ => format!("RATIONAL_B_SPLINE_SURFACE('',{base},({wrows}))"),
    });
    let face = surface_face(f, s, true, p[0]);
    let uniform = |d: usize, n: usize| -> Vec<f64> { let k = n - d; let mut t = vec![0.0; d + 1]; for i in 1..k { t.push(i as f64) } t.extend(vec![k as f64; d + 1]); t };
    // up to scale, clamped and evenly spaced
    let even = |a: &geom3d::KnotVector, e: Vec<f64>| { prove(a.0.len() == e.len(), "as many knots as needed"); let s = (a.0[a.0.len() - 1] - a.0[0]) / e[e.len() - 1]; prove(s > 0.0, "increasing knots"); for i in 0..e.len() { near_tol(a.0[i] - a.0[0], e[i] * s, 1e-9, "clamped and evenly spaced") } };
    let pts = |g: &geom3d::Grid<Point3>| { prove(g.rows() == n && g.cols() == m, "as many rows and columns"); for i in 0..n { for j in 0..m { same3(g[i][j], p[i * m + j], "control points in rows") } } };
    let wpts = |g: &geom3d::Grid<Point4>| {
        prove(g.rows() == n && g.cols() == m, "as many rows and columns");
        for i in 0..n { for j in 0..m { let (q, k) = (g[i][j], i * m + j); near_tol(q.w, w[k], TOL, "weights in rows"); same3(q.truncate(), p[k] * w[k], "weighted control points in rows") } }
    };
    match kind {
        0 => match (*face.surface).downcast_ref::<BezierSurface<Point3>>() { Some(q) => pts(&q.control_points), None => prove(false, "a Bezier surface") },
        1 | 3 => match (*face.surface).downcast_ref::<BSplineSurface<Point3>>() {
            Some(q) => { pts(&q.control_points); prove(q.degree == (du as u8, dv as u8), "the degrees"); if kind == 1 { same_knots(&q.knots.0, &expand(&tu, su.1)); same_knots(&q.knots.1, &expand(&tv, sv.1)) } else { even(&q.knots.0, uniform(du, n)); even(&q.knots.1, uniform(dv, m)) } }
            None => prove(false, "a B-spline surface") },
        _ => match (*face.surface).downcast_ref::<BSplineSurface<Point4>>() {
            Some(q) => { wpts(&q.control_points); prove(q.degree == (du as u8, dv as u8), "the degrees"); if kind == 2 { same_knots(&q.knots.0, &expand(&tu, su.1)); same_knots(&q.knots.1, &expand(&tv, sv.1)) } else { even(&q.knots.0, uniform(du, n)); even(&q.knots.1, uniform(dv, m)) } }
            None => prove(false, "a rational B-spline surface") },
    }
    reach(0);
}
/// several faces and composite curves: all that are supported, in file order
fn faces() {
    set_mode(REAL); private_files();
    let n = choice("faces", 4); let k = choice("curves", 3);
    let mut c = coords(choice("signed", 3)); let mut f = File::new();
    let mut want = vec![]; let mut curves = vec![];
    for i in 0..n {
        let o = c.point(&format!("o{i}"));
        let b = write_loop(&mut f, i % 2 == 0, &[o, o + Vec3::X, o + Vec3::X + Vec3::Y, o + Vec3::Y], &[Vec3::X, Vec3::Y, -Vec3::X, -Vec3::Y], i, 2 * i, true);
        let kind = choice(&format!("kind{i}"), 3); let a = f.axes(o, Some(Vec3::Z), Some(Vec3::X));
        let s = f.add(match kind { 0 => format!("PLANE('',#{a})"), 1 => format!("CYLINDRICAL_SURFACE('',#{a},2.5)"), _ => format!("CONICAL_SURFACE('',#{a},2.5,0.5)") });
        f.face(&[b], s, true);
        if kind < 2 { want.push((kind, o)) }
    }
    for i in 0..k {
        let o = c.point(&format!("q{i}")); let l = f.line(o, Vec3::Y, 1.0);
        let t = f.add(format!("TRIMMED_CURVE('',#{l},(PARAMETER_VALUE(0.5)),(PARAMETER_VALUE(2.)),.T.,.PARAMETER.)")); let s = f.add(format!("COMPOSITE_CURVE_SEGMENT(.CONTINUOUS.,.T.,#{t})")); f.add(format!("COMPOSITE_CURVE('',(#{s}),.F.)"));
        curves.push(o);
    }
    let m = f.read();
    prove(m.faces.len() == want.len(), "one face per supported face"); prove(m.curves.len() == k, "one polycurve per composite curve");
    for (g, (kind, o)) in m.faces.iter().zip(want) {
        prove(g.bounds.len() == 1, "every bound is read");
        check_loop(&g.bounds[0].edges, &[o, o + Vec3::X, o + Vec3::X + Vec3::Y, o + Vec3::Y]);
        if kind == 0 { match (*g.surface).downcast_ref::<Plane>() { Some(p) => same3(p.origin, o, "faces in file order"), None => prove(false, "a plane") } }
        else { match (*g.surface).downcast_ref::<Cylinder>() { Some(p) => same3(p.origin, o, "faces in file order"), None => prove(false, "a cylinder") } }
    }
    for (s, o) in m.curves.iter().zip(curves) { prove(s.segments.len() == 1, "every segment is read"); let (a, b) = ends(&s.segments[0]); same3(a, o + Vec3::Y * 0.5, "curves in file order"); same3(b, o + Vec3::Y * 2.0, "curves in file order") }
    reach(0);
}
