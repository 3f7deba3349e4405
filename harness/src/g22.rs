//! G22 binary STL files are well formed and complete (bit-precise).
use crate::common::*;
use crate::g21::{coords, setup, Coords, ALL};
use crate::sym::*;
use geom3d::surface::{Plane, SurfacePatch};
use geom3d::{Face, Model, TriangleMesh, Vec3};
pub const LIST: &[(&str, fn())] = &[("g22_faces", faces), ("g22_names", names), ("g22_patch", patch)];

/// The bytes of a binary STL file hold exactly these triangles, in order.
pub fn check(file: &str, parts: &[TriangleMesh]) {
    let b = std::fs::read(file); prove(b.is_ok(), "the file can be read"); let b = b.unwrap();
    let n: usize = parts.iter().map(|m| m.triangles.len() / 3).sum();
    prove(b.len() >= 84, "header and count are complete");
    prove(u32::from_le_bytes([b[80], b[81], b[82], b[83]]) as usize == n, "the count is the number of triangles");
    prove(b.len() == 84 + 50 * n, "one 50 byte record per triangle");
    prove(!b.starts_with(b"solid"), "not mistaken for text");
    let mut o = 84;
    for m in parts { for t in m.triangles.chunks(3) {
        for k in 0..3 { let v = m.vertices[t[k] as usize]; for (j, x) in [v.x, v.y, v.z].iter().enumerate() {
            let a = o + 12 + 12 * k + 4 * j; let got = f32::from_le_bytes([b[a], b[a + 1], b[a + 2], b[a + 3]]);
            prove_f(f_cmp(got as f64, (*x as f32) as f64, EQ), "vertices as single-precision values, in order");
        } }
        prove(b[o + 48] == 0 && b[o + 49] == 0, "no attributes");
        o += 50;
    } }
}
const TRIS: [&[[u32; 3]]; 4] = [&[[0, 1, 2]], &[[0, 1, 2], [2, 1, 3]], &[], &[[3, 0, 2], [1, 3, 2], [0, 2, 1]]];
fn some(n: &str, c: &mut Coords, k: usize) -> TriangleMesh { TriangleMesh { vertices: (0..4).map(|i| c.point(&format!("{n}v{i}"))).collect(), normals: vec![], triangles: TRIS[k].concat() } }
fn build(n: usize) -> (Model<TriangleMesh>, Vec<TriangleMesh>) {
    let mut m = Model::<TriangleMesh>::new(); let mut parts = vec![];
    let mut c = coords(ALL);
    for i in 0..n { let f = some(&format!("f{i}"), &mut c, choice(&format!("face{i}"), 4)); parts.push(f.clone()); m.add_face(f) }
    (m, parts)
}
fn faces() {
    setup();
    let n = choice("faces", if thorough() { 4 } else { 3 } + 1);
    let (m, parts) = build(n);
    prove(m.save_as_stl("a.stl").is_ok(), "saving succeeds");
    check("a.stl", &parts);
    // a shorter file replaces a longer one
    let e = Model::<TriangleMesh>::new();
    prove(e.save_as_stl("a.stl").is_ok(), "saving succeeds");
    check("a.stl", &[]);
    reach(0);
}
fn names() {
    setup();
    let len = pick("length", &[1usize, 2, 10, 56, 57, 58, 59, 80, 200]);
    let c = pick("letter", &["a", "\u{e9}", "\u{4e2d}", "."]);
    let ext = pick("extension", &["", ".stl"]);
    let len = len.min(240 / c.len());
    let name = format!("{}{}", if c == "." { format!(".{}", "b".repeat(len)) } else { c.repeat(len) }, ext);
    let (m, parts) = build(1);
    prove(m.save_as_stl(&name).is_ok(), "saving succeeds");
    check(&name, &parts);
    reach(0);
}
/// a surface patch as a face
fn patch() {
    setup();
    let mut c = coords(ALL);
    let o = c.point("o");
    for x in [o.x, o.y, o.z] { assume_cmp(x, 1e30, LE); assume_cmp(-1e30, x, LE) }
    let f = || SurfacePatch { surface: Plane { origin: o, normal: Vec3::Z, u_axis: Vec3::X, v_axis: Vec3::Y }, parameter_range: ((0.0, 1.0), (0.0, 2.0)), parameter_division: (1, 2) };
    let mut m = Model::new(); m.add_face(f()); m.add_face(f());
    prove(m.save_as_stl("p.stl").is_ok(), "saving succeeds");
    let t = f().get_triangle_mesh();
    check("p.stl", &[t.clone(), t]);
    reach(0);
}
