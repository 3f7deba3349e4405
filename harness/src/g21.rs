//! G21 OBJ and point-cloud files reproduce the geometry (bit-precise; a symbolic number prints as a token).
use crate::common::*;
use crate::sym::*;
use geom3d::{points, Model, Point3, TriangleMesh, Vec3};
pub const LIST: &[(&str, fn())] = &[("g21_mesh", mesh), ("g21_model", model), ("g21_reverse", reverse), ("g21_cloud", cloud), ("g21_cloud_lines", cloud_lines), ("g21_cloud_normals", cloud_normals), ("g21_points", points2), ("g21_scale", scale)];

pub fn setup() { set_mode(FP); private_files(); }
/// Any finite coordinate; only the one numbered `signed` may be negative, to bound the number of sign cases.
pub struct Coords { signed: usize, next: usize }
pub fn coords(signed: usize) -> Coords { Coords { signed, next: 0 } }
/// Every coordinate may be negative.
pub const ALL: usize = usize::MAX;
impl Coords {
    pub fn one(&mut self, n: &str) -> f64 { self.next += 1; real(n, if self.signed == ALL || self.next - 1 == self.signed { -f64::MAX } else { 0.0 }, f64::MAX) }
    pub fn point(&mut self, n: &str) -> Point3 { Point3::new(self.one(&format!("{n}.x")), self.one(&format!("{n}.y")), self.one(&format!("{n}.z"))) }
}
pub fn f_same3(a: Point3, b: Point3) -> F { f_all([f_cmp(a.x, b.x, EQ), f_cmp(a.y, b.y, EQ), f_cmp(a.z, b.z, EQ)]) }
/// All of these points are the same numbers.
pub fn same_all(a: &[Point3], b: &[Point3], m: &str) { prove_f(f_all(a.iter().zip(b).map(|(a, b)| f_same3(*a, *b))), m) }
fn number(s: &str) -> f64 { match s.parse::<f64>() { Ok(v) => v, Err(_) => { prove(false, "numbers are written as numbers"); 0.0 } } }
fn index(s: &str) -> usize { match s.parse::<usize>() { Ok(v) => v, Err(_) => { prove(false, "indices are written as numbers"); 0 } } }
/// What an OBJ reader finds: every vertex, normal and triangle (0-based) in the file.
#[derive(Default)]
pub struct Obj { v: Vec<Point3>, n: Vec<Vec3>, f: Vec<[(usize, Option<usize>); 3]> }
pub fn read(file: &str) -> Obj {
    let t = std::fs::read_to_string(file); prove(t.is_ok(), "the file can be read"); let t = t.unwrap();
    let mut o = Obj::default();
    prove(t.is_empty() || t.ends_with('\n'), "the last line is complete");
    for l in t.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().cloned() {
            Some("v") => { prove(w.len() == 4, "three coordinates per vertex"); o.v.push(Point3::new(number(w[1]), number(w[2]), number(w[3]))) }
            Some("vn") => { prove(w.len() == 4, "three coordinates per normal"); o.n.push(Vec3::new(number(w[1]), number(w[2]), number(w[3]))) }
            Some("f") => {
                prove(w.len() == 4, "three corners per triangle");
                let mut c = [(0, None); 3];
                for i in 0..3 {
                    let q: Vec<&str> = w[i + 1].split('/').collect();
                    prove(q.len() <= 3, "corners are v, v/t, v//n or v/t/n");
                    let v = index(q[0]); prove(v >= 1 && v <= o.v.len(), "corners refer to vertices written before");
                    let n = if q.len() == 3 { let n = index(q[2]); prove(n >= 1 && n <= o.n.len(), "corners refer to normals written before"); Some(n - 1) } else { None };
                    c[i] = (v - 1, n);
                }
                o.f.push(c)
            }
            Some(x) => prove(x.starts_with('#'), "only vertices, normals and triangles"),
            None => {}
        }
    }
    o
}
fn some_mesh(n: &str, c: &mut Coords, verts: usize, normals: bool, tris: &[[u32; 3]]) -> TriangleMesh {
    TriangleMesh { vertices: (0..verts).map(|i| c.point(&format!("{n}v{i}"))).collect(), normals: if normals { (0..verts).map(|i| c.point(&format!("{n}n{i}"))).collect() } else { vec![] }, triangles: tris.concat() }
}
pub fn check(o: &Obj, parts: &[TriangleMesh]) {
    let (mut v, mut n, mut f) = (0, 0, 0);
    for m in parts { v += m.vertices.len(); n += m.normals.len(); f += m.triangles.len() / 3 }
    prove(o.v.len() == v && o.n.len() == n && o.f.len() == f, "every vertex, normal and triangle is written once");
    let (mut v, mut n, mut f) = (0, 0, 0);
    for m in parts {
        same_all(&o.v[v..], &m.vertices, "vertices keep their coordinates");
        same_all(&o.n[n..], &m.normals, "normals keep their coordinates");
        for t in m.triangles.chunks(3) {
            for k in 0..3 {
                prove(o.f[f][k].0 == v + t[k] as usize, "triangles refer to their own vertices");
                prove(o.f[f][k].1 == if m.normals.is_empty() { None } else { Some(n + t[k] as usize) }, "triangles refer to their own normals, if any");
            }
            f += 1;
        }
        v += m.vertices.len(); n += m.normals.len();
    }
}
const TRIS: [&[[u32; 3]]; 4] = [&[], &[[0, 1, 2]], &[[0, 1, 2], [2, 1, 3]], &[[3, 0, 2], [1, 3, 2], [0, 0, 1]]];
fn mesh() {
    setup();
    let k = choice("triangles", 4); let normals = choice("normals", 2) == 1;
    let n = [0, 3, 4, 4][k];
    let s = choice("signed", 3 * n * (1 + normals as usize) + 1);
    let m = some_mesh("", &mut coords(s), n, normals, TRIS[k]);
    if choice("through", 2) == 0 { prove(m.save_as_obj("a.obj").is_ok(), "saving succeeds"); check(&read("a.obj"), &[m]) }
    else {
        // the indices follow the given starts
        let (vs, ns) = pick("starts", &[(1u32, 1u32), (5, 1), (8, 12)]);
        let mut b: Vec<u8> = vec![]; prove(m.write_obj(&mut b, vs, ns).is_ok(), "writing succeeds");
        let before: String = (1..vs).map(|_| "v 0 0 0\n").chain((1..ns).map(|_| "vn 0 0 1\n")).collect();
        std::fs::write("b.obj", [before.as_bytes(), &b].concat()).unwrap();
        let mut o = read("b.obj"); prove(o.v.len() >= vs as usize - 1 && o.n.len() >= ns as usize - 1, "every vertex and normal is written");
        o.v.drain(..vs as usize - 1); o.n.drain(..ns as usize - 1);
        for f in &mut o.f { for c in f { prove(c.0 + 1 >= vs as usize && c.1.map_or(true, |n| n + 1 >= ns as usize), "indices start where told"); c.0 -= vs as usize - 1; c.1 = c.1.map(|n| n + 1 - ns as usize) } }
        check(&o, &[m]);
    }
    reach(0);
}
fn model() {
    setup();
    let mut m = Model::<TriangleMesh>::new();
    let n = choice("faces", if thorough() { 4 } else { 3 } + 1);
    let s = choice("signed", if thorough() { 4 } else { 2 });
    let mut c = coords([0, 22, 7, 9][s]); let mut parts = vec![];
    for i in 0..n {
        let k = choice(&format!("face{i}"), 3); let normals = choice(&format!("normals{i}"), 2) == 1;
        let f = some_mesh(&format!("f{i}"), &mut c, [3, 4, 0][k], normals, TRIS[[1, 2, 0][k]]);
        parts.push(f.clone()); m.add_face(f);
    }
    prove(m.save_as_obj("m.obj").is_ok(), "saving succeeds");
    check(&read("m.obj"), &parts);
    reach(0);
}
fn reverse() {
    setup();
    let k = choice("triangles", 4); let normals = choice("normals", 2) == 1;
    let m = some_mesh("", &mut coords(0), 4, normals, TRIS[k]);
    let r = m.clone().reverse_winding_direction();
    prove(r.vertices.len() == m.vertices.len() && r.normals.len() == m.normals.len() && r.triangles.len() == m.triangles.len(), "reversing keeps all counts");
    same_all(&r.vertices, &m.vertices, "reversing keeps vertices");
    same_all(&r.normals, &m.normals, "reversing keeps normals");
    for (a, b) in r.triangles.chunks(3).zip(m.triangles.chunks(3)) {
        let ok = (0..3).any(|s| a[0] == b[(s + 2) % 3] && a[1] == b[(s + 1) % 3] && a[2] == b[s]);
        prove(ok, "every triangle is reversed, in place");
    }
    prove(m.triangle_count() == TRIS[k].len(), "the triangle count is the number of triangles");
    reach(0);
}
fn load(file: &str) -> Vec<Point3> { let r = points::load_point_cloud(file); prove(r.is_ok(), "loading succeeds"); r.unwrap() }
fn expect(got: &[Point3], want: &[Point3]) {
    prove(got.len() == want.len(), "as many points as written");
    same_all(got, want, "points keep their coordinates and order")
}
fn cloud() {
    setup();
    let n = choice("points", if thorough() { 6 } else { 4 });
    let mut c = coords(choice("signed", 3 * n + 1)); let p: Vec<Point3> = (0..n).map(|i| c.point(&format!("p{i}"))).collect();
    prove(points::save_point_cloud(&p, "c.xyz").is_ok(), "saving succeeds");
    expect(&load("c.xyz"), &p);
    // saving again replaces the file
    prove(points::save_point_cloud(&p[n.min(1)..], "c.xyz").is_ok(), "saving succeeds");
    expect(&load("c.xyz"), &p[n.min(1)..]);
    reach(0);
}
/// separators, comments, labels, other lines and line ends
fn cloud_lines() {
    setup();
    let mut c = coords(if thorough() { choice("signed", 6) } else { [0, 4][choice("signed", 2)] }); let p: Vec<Point3> = (0..2).map(|i| c.point(&format!("p{i}"))).collect();
    let sep = pick("separator", &[" ", ",", "\t", "  ", ", "]);
    let lead = pick("lead", &["", " ", "v ", "17,"]);
    let end = pick("end", &["\n", "\r\n"]);
    let other = pick("other", &["", "# 1 2 3", "#", "1 2", "7", "1 2 3 4 5 6", "a b c d e"]);
    let row = |q: &Point3| format!("{}{}{sep}{}{sep}{}{end}", lead, q.x, q.y, q.z);
    let at = choice("where", 3);
    let mut t = String::new();
    for i in 0..3 { if at == i { t += other; t += end } if i < 2 { t += &row(&p[i]) } }
    if choice("last", 2) == 1 { t.truncate(t.trim_end().len()) }
    std::fs::write("d.xyz", &t).unwrap();
    expect(&load("d.xyz"), &p);
    reach(0);
}
/// rows of numbers in a text file
fn rows(file: &str) -> Vec<Vec<f64>> { std::fs::read_to_string(file).unwrap().lines().map(|l| l.split([' ', ',', '\t']).filter(|w| !w.is_empty()).map(number).collect()).collect() }
fn cloud_normals() {
    setup();
    let n = choice("points", 3);
    let mut c = coords(choice("signed", 6 * n + 1)); let p: Vec<(Point3, Vec3)> = (0..n).map(|i| (c.point(&format!("p{i}")), c.point(&format!("n{i}")))).collect();
    prove(points::save_point_cloud_with_normal(&p, "e.xyz").is_ok(), "saving succeeds");
    let r = rows("e.xyz"); prove(r.len() == n, "as many rows as points");
    prove(r.iter().all(|w| w.len() == 6), "six numbers per row");
    same_all(&r.iter().map(|w| Point3::new(w[0], w[1], w[2])).collect::<Vec<_>>(), &p.iter().map(|x| x.0).collect::<Vec<_>>(), "points keep their coordinates");
    same_all(&r.iter().map(|w| Point3::new(w[3], w[4], w[5])).collect::<Vec<_>>(), &p.iter().map(|x| x.1).collect::<Vec<_>>(), "normals keep their coordinates");
    reach(0);
}
fn points2() {
    setup();
    let n = choice("points", 4);
    let mut c = coords(choice("signed", 2 * n + 1)); let p: Vec<geom3d::Point2> = (0..n).map(|i| geom3d::Point2::new(c.one(&format!("x{i}")), c.one(&format!("y{i}")))).collect();
    prove(points::save_points(&p, "f.csv").is_ok(), "saving succeeds");
    let r = rows("f.csv"); prove(r.len() == n, "as many rows as points");
    for (w, a) in r.iter().zip(&p) { prove(w.len() == 2, "two numbers per row"); eq(w[0], a.x, "points keep their coordinates"); eq(w[1], a.y, "points keep their coordinates") }
    reach(0);
}
fn scale() {
    set_mode(REAL);
    let n = choice("points", 3); let k = real("k", -100.0, 100.0);
    let p: Vec<Point3> = (0..n).map(|i| p3(&format!("p{i}"), 1000.0)).collect();
    let s = points::scale_points(&p, k); prove(s.len() == n, "every point is scaled");
    for (a, b) in s.iter().zip(&p) { near3_tol(*a, *b * k, 1e-6, "scaled by the factor") }
    reach(0);
}
