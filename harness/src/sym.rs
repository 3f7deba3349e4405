//! Harness interface.  In the symbolic build (`--cfg sym`) these calls go to the symbolic runtime; in the native build
//! they replay a recorded assignment: inputs come from a file, assumptions are tested, obligations are checked with a
//! floating-point slack.
#![allow(dead_code)]
use std::panic;
use std::sync::Mutex;

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());
fn hook() {
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Ok(mut g) = PANIC_MSG.lock() { *g = format!("{} at {}", m, l); }
    }));
}
pub fn last_panic() -> String { PANIC_MSG.lock().map(|g| g.clone()).unwrap_or_default() }
/// Runs `f`, turning a panic into `Err(message)`.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    panic::catch_unwind(panic::AssertUnwindSafe(f)).map_err(|e| { if e.is::<Stop>() { panic::resume_unwind(e) } last_panic() })
}
pub struct Stop(pub i32);

#[cfg(sym)]
mod imp {
    extern "C" {
        fn sym_real(p: *const u8, n: usize, lo: f64, hi: f64) -> f64;
        fn sym_any_fp(p: *const u8, n: usize) -> f64;
        fn sym_angle(p: *const u8, n: usize) -> f64;
        fn sym_unit(p: *const u8, n: usize, c: *mut f64, s: *mut f64);
        fn sym_random() -> f64;
        fn sym_choice(p: *const u8, n: usize, k: u64) -> u64;
        fn sym_assume(b: bool);
        fn sym_assume_cmp(a: f64, b: f64, op: i32);
        fn sym_assume_or_cmp(a: f64, b: f64, op: i32, c: f64, d: f64, op2: i32);
        fn sym_prove(b: bool, p: *const u8, n: usize);
        fn sym_prove_cmp(a: f64, b: f64, op: i32, p: *const u8, n: usize);
        fn sym_prove_near(a: f64, b: f64, tol: f64, p: *const u8, n: usize);
        fn sym_observe(p: *const u8, n: usize, v: f64);
        fn sym_reach(k: u64);
        fn sym_is_symbolic(a: f64) -> bool;
        fn sym_set_mode(m: i32);
        fn sym_set_timeout(ms: i32);
        fn sym_set_exact(b: bool);
        fn sym_set_cpu(s: i64);
        fn sym_violation(k: *const u8, p: *const u8, n: usize);
        fn sym_f_cmp(a: f64, b: f64, op: i32) -> u32;
        fn sym_f_and(a: u32, b: u32) -> u32;
        fn sym_f_or(a: u32, b: u32) -> u32;
        fn sym_f_not(a: u32) -> u32;
        fn sym_f_const(b: bool) -> u32;
        fn sym_assume_f(f: u32);
        fn sym_prove_f(f: u32, p: *const u8, n: usize);
        fn sym_branch_f(f: u32) -> bool;
        fn sym_points(p: *const f64, n: usize, x: bool);
        fn sym_begin();
        fn sym_end();
        fn sym_token(v: f64) -> f64;
        fn sym_make_token(v: f64, precision: i32) -> f64;
        fn sym_private_cwd();
    }
    // Text: a symbolic number prints as a token, a decimal number that stands for it (for its rounding when a precision is given), with
    // a minus sign in front when it is negative; parsing a token gives the number back.  Everything else is printed and parsed by core.
    // The instrumentation directs printing and parsing of the instrumented crates here.
    #[no_mangle]
    pub fn sym_fmt_f64(x: &f64, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if !is_symbolic(*x) { return std::fmt::Display::fmt(x, f) }
        let negative = *x < 0.0;
        let t = unsafe { sym_make_token(if negative { -*x } else { *x }, f.precision().map_or(-1, |p| p as i32)) };
        f.pad_integral(!negative, "", &format!("{}", t))
    }
    #[no_mangle]
    pub fn sym_fmt_f32(x: &f32, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if !is_symbolic(*x as f64) { return std::fmt::Display::fmt(x, f) }
        sym_fmt_f64(&(*x as f64), f)
    }
    #[no_mangle]
    pub fn sym_fmt_ref_f64(x: &&f64, f: &mut std::fmt::Formatter) -> std::fmt::Result { sym_fmt_f64(x, f) }
    #[no_mangle]
    pub fn sym_fmt_ref_f32(x: &&f32, f: &mut std::fmt::Formatter) -> std::fmt::Result { sym_fmt_f32(x, f) }
    #[no_mangle]
    pub fn sym_to_string_f64(x: &f64) -> String { format!("{}", x) }
    #[no_mangle]
    pub fn sym_to_string_f32(x: &f32) -> String { format!("{}", x) }
    #[no_mangle]
    pub fn sym_from_str_f64(s: &str) -> Result<f64, std::num::ParseFloatError> { <f64 as std::str::FromStr>::from_str(s).map(|v| unsafe { sym_token(v) }) }
    #[no_mangle]
    pub fn sym_from_str_f32(s: &str) -> Result<f32, std::num::ParseFloatError> {
        let v = sym_from_str_f64(s)?;
        if is_symbolic(v) { return Ok(v as f32) }
        <f32 as std::str::FromStr>::from_str(s)
    }
    /// Files are written to the current directory: give every path its own from here on.
    pub fn private_files() { unsafe { sym_private_cwd() } }
    pub fn real(n: &str, lo: f64, hi: f64) -> f64 { unsafe { sym_real(n.as_ptr(), n.len(), lo, hi) } }
    pub fn any_fp(n: &str) -> f64 { unsafe { sym_any_fp(n.as_ptr(), n.len()) } }
    pub fn angle(n: &str) -> f64 { unsafe { sym_angle(n.as_ptr(), n.len()) } }
    pub fn unit(n: &str) -> (f64, f64) { let (mut c, mut s) = (0.0, 0.0); unsafe { sym_unit(n.as_ptr(), n.len(), &mut c, &mut s) }; (c, s) }
    pub fn random() -> f64 { unsafe { sym_random() } }
    pub fn choice(n: &str, k: usize) -> usize { unsafe { sym_choice(n.as_ptr(), n.len(), k as u64) as usize } }
    pub fn assume(b: bool) { unsafe { sym_assume(b) } }
    pub fn assume_cmp(a: f64, b: f64, op: i32) { unsafe { sym_assume_cmp(a, b, op) } }
    pub fn assume_or(a: f64, b: f64, op: i32, c: f64, d: f64, op2: i32) { unsafe { sym_assume_or_cmp(a, b, op, c, d, op2) } }
    pub fn prove(b: bool, m: &str) { unsafe { sym_prove(b, m.as_ptr(), m.len()) } }
    pub fn prove_cmp(a: f64, b: f64, op: i32, m: &str) { unsafe { sym_prove_cmp(a, b, op, m.as_ptr(), m.len()) } }
    pub fn prove_near(a: f64, b: f64, tol: f64, m: &str) { unsafe { sym_prove_near(a, b, tol, m.as_ptr(), m.len()) } }
    pub fn observe(n: &str, v: f64) { unsafe { sym_observe(n.as_ptr(), n.len(), v) } }
    pub fn reach(k: usize) { unsafe { sym_reach(k as u64) } }
    pub fn is_symbolic(a: f64) -> bool { unsafe { sym_is_symbolic(a) } }
    pub fn set_mode(m: i32) { unsafe { sym_set_mode(m) } }
    pub fn set_exact() { unsafe { sym_set_exact(true) } }
    pub fn set_timeout(ms: i32) { unsafe { sym_set_timeout(ms) } }
    pub fn set_cpu(s: i64) { unsafe { sym_set_cpu(s) } }
    /// Decide orientation conditions of these points over their order types (LATTICE mode, at most 8 points).
    pub fn set_points(p: &[geom3d::Point2], x_order: bool) { let v: Vec<f64> = p.iter().flat_map(|q| [q.x, q.y]).collect(); unsafe { sym_points(v.as_ptr(), p.len(), x_order) } }
    /// A formula over symbolic comparisons (built without branching).
    #[derive(Clone, Copy)]
    pub struct F(u32);
    pub fn f_cmp(a: f64, b: f64, op: i32) -> F { F(unsafe { sym_f_cmp(a, b, op) }) }
    pub fn f_and(a: F, b: F) -> F { F(unsafe { sym_f_and(a.0, b.0) }) }
    pub fn f_or(a: F, b: F) -> F { F(unsafe { sym_f_or(a.0, b.0) }) }
    pub fn f_not(a: F) -> F { F(unsafe { sym_f_not(a.0) }) }
    pub fn f_const(b: bool) -> F { F(unsafe { sym_f_const(b) }) }
    pub fn assume_f(f: F) { unsafe { sym_assume_f(f.0) } }
    pub fn prove_f(f: F, m: &str) { unsafe { sym_prove_f(f.0, m.as_ptr(), m.len()) } }
    pub fn branch_f(f: F) -> bool { unsafe { sym_branch_f(f.0) } }
    pub fn run(h: fn()) {
        super::hook();
        rand::source::set(random);
        unsafe { sym_begin() };
        match std::panic::catch_unwind(h) {
            Ok(()) => unsafe { sym_end() },
            Err(_) => { let m = super::last_panic(); unsafe { sym_violation(b"panic\0".as_ptr(), m.as_ptr(), m.len()) } }
        }
    }
    pub const SYMBOLIC: bool = true;
}

#[cfg(not(sym))]
mod imp {
    use super::Stop;
    use std::cell::RefCell;
    #[derive(Clone)]
    struct In { kind: String, name: String, a: f64, b: f64 }
    #[derive(Default)]
    struct St { ins: Vec<In>, pos: usize, fp: bool, fails: Vec<String> }
    thread_local! { static S: RefCell<St> = RefCell::new(St::default()); }
    fn stop(code: i32) -> ! { std::panic::resume_unwind(Box::new(Stop(code))) }
    fn next(kind: &str, name: &str) -> Option<In> {
        S.with(|s| { let mut s = s.borrow_mut(); let i = s.pos; s.pos += 1; s.ins.get(i).cloned() }).map(|x| {
            if x.kind != kind || (x.name != name && kind != "random") { println!("RESULT diverged expected {} {} got {} {}", x.kind, x.name, kind, name); stop(4); }
            x
        })
    }
    pub fn real(n: &str, lo: f64, hi: f64) -> f64 { next("real", n).map(|x| x.a.max(lo).min(hi)).unwrap_or_else(|| 0f64.max(lo).min(hi)) }
    pub fn any_fp(n: &str) -> f64 { next("real", n).map(|x| x.a).unwrap_or(0.0) }
    pub fn angle(n: &str) -> f64 { next("angle", n).map(|x| x.a).unwrap_or(0.0) }
    pub fn unit(n: &str) -> (f64, f64) { next("unit", n).map(|x| (x.a, x.b)).unwrap_or((1.0, 0.0)) }
    pub fn random() -> f64 { next("random", "").map(|x| x.a.max(0.0).min(1.0 - 1e-16)).unwrap_or(0.5) }
    pub fn choice(n: &str, k: usize) -> usize { next("choice", n).map(|x| (x.a as usize).min(k - 1)).unwrap_or(0) }
    pub fn assume(b: bool) { if !b { println!("RESULT assumption-not-met"); stop(3) } }
    fn cmp(a: f64, b: f64, op: i32, slack: f64) -> bool {
        let s = slack * (1.0 + a.abs().max(b.abs()));
        if slack == 0.0 || !a.is_finite() || !b.is_finite() { return match op { 0 => a < b, 1 => a <= b, 2 => a == b, _ => a != b }; }
        match op { 0 => a < b + s, 1 => a <= b + s, 2 => (a - b).abs() <= s, _ => a != b }
    }
    fn slack() -> f64 { if S.with(|s| s.borrow().fp) { 0.0 } else { 1e-9 } }
    pub fn assume_cmp(a: f64, b: f64, op: i32) { if !cmp(a, b, op, slack()) { println!("RESULT assumption-not-met"); stop(3) } }
    pub fn assume_or(a: f64, b: f64, op: i32, c: f64, d: f64, op2: i32) { if !cmp(a, b, op, slack()) && !cmp(c, d, op2, slack()) { println!("RESULT assumption-not-met"); stop(3) } }
    fn fail(m: String) { println!("FAIL {}", m); S.with(|s| s.borrow_mut().fails.push(m)); }
    pub fn prove(b: bool, m: &str) { if !b { fail(m.to_string()); finish() } }
    pub fn prove_cmp(a: f64, b: f64, op: i32, m: &str) {
        // obligations in algebraic modes are confirmed with a margin: rounding differences are not violations
        let ok = if op == 3 { a != b } else { cmp(a, b, op, slack() * 10.0) };
        if !ok { fail(format!("{} [left {:?} right {:?}]", m, a, b)) }
    }
    pub fn prove_near(a: f64, b: f64, tol: f64, m: &str) {
        let ok = (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol + 10.0 * slack() * (1.0 + a.abs().max(b.abs()));
        if !ok { fail(format!("{} [got {:?} expected {:?}]", m, a, b)) }
    }
    #[derive(Clone, Copy)]
    pub struct F(bool, bool); // (exact value, value with slack in favour of truth)
    pub fn f_cmp(a: f64, b: f64, op: i32) -> F { F(cmp(a, b, op, 0.0), cmp(a, b, op, slack() * 10.0)) }
    pub fn f_and(a: F, b: F) -> F { F(a.0 && b.0, a.1 && b.1) }
    pub fn f_or(a: F, b: F) -> F { F(a.0 || b.0, a.1 || b.1) }
    pub fn f_const(b: bool) -> F { F(b, b) }
    pub fn f_not(a: F) -> F { F(!a.0, !a.0) }
    pub fn assume_f(f: F) { if !f.1 { println!("RESULT assumption-not-met"); stop(3) } }
    pub fn prove_f(f: F, m: &str) { if !f.1 { fail(m.to_string()) } }
    pub fn branch_f(f: F) -> bool { f.0 }
    pub fn observe(n: &str, v: f64) { println!("obs {} {:e}", n, v) }
    pub fn reach(_k: usize) {}
    pub fn is_symbolic(_a: f64) -> bool { false }
    pub fn set_mode(m: i32) { S.with(|s| s.borrow_mut().fp = m == 2) }
    pub fn set_points(_p: &[geom3d::Point2], _x: bool) {}
    pub fn set_exact() {}
    pub fn private_files() {}
    pub fn set_timeout(_ms: i32) {}
    pub fn set_cpu(_s: i64) {}
    fn finish() -> ! { stop(0) }
    pub fn run(h: fn()) {
        super::hook();
        rand::source::set(random);
        if let Some(f) = std::env::args().nth(2) {
            let t = std::fs::read_to_string(f).expect("assignment file");
            let ins = t.lines().filter_map(|l| { let w: Vec<&str> = l.split(' ').collect(); if w.len() >= 5 && w[0] == "in" {
                Some(In { kind: w[1].into(), name: w[2].into(), a: f64::from_bits(u64::from_str_radix(w[3], 16).unwrap()), b: f64::from_bits(u64::from_str_radix(w[4], 16).unwrap()) }) } else { None } }).collect();
            S.with(|s| s.borrow_mut().ins = ins);
        }
        let r = std::panic::catch_unwind(h);
        let code = match r {
            Ok(()) => 0,
            Err(e) => match e.downcast_ref::<Stop>() { Some(Stop(c)) => *c, None => { println!("FAIL panic: {}", super::last_panic()); S.with(|s| s.borrow_mut().fails.push("panic".into())); 0 } },
        };
        if code != 0 { std::process::exit(code) }
        if S.with(|s| !s.borrow().fails.is_empty()) { println!("RESULT violated"); std::process::exit(1) }
        println!("RESULT ok");
        std::process::exit(0)
    }
    pub const SYMBOLIC: bool = false;
}
pub use imp::*;

// ------------------------------------------------------------------ conveniences
pub fn lt(a: f64, b: f64, m: &str) { prove_cmp(a, b, 0, m) }
pub fn le(a: f64, b: f64, m: &str) { prove_cmp(a, b, 1, m) }
pub fn eq(a: f64, b: f64, m: &str) { prove_cmp(a, b, 2, m) }
pub fn ne(a: f64, b: f64, m: &str) { prove_cmp(a, b, 3, m) }
pub fn near(a: f64, b: f64, m: &str) { prove_near(a, b, 1e-9, m) }
pub fn near_tol(a: f64, b: f64, t: f64, m: &str) { prove_near(a, b, t, m) }
pub fn assume_lt(a: f64, b: f64) { assume_cmp(a, b, 0) }
pub fn assume_le(a: f64, b: f64) { assume_cmp(a, b, 1) }
pub fn assume_eq(a: f64, b: f64) { assume_cmp(a, b, 2) }
pub fn assume_ne(a: f64, b: f64) { assume_cmp(a, b, 3) }
use geom3d::{Point2, Point3};
pub fn p3(n: &str, r: f64) -> Point3 { Point3::new(real(&format!("{n}.x"), -r, r), real(&format!("{n}.y"), -r, r), real(&format!("{n}.z"), -r, r)) }
pub fn p2(n: &str, r: f64) -> Point2 { Point2::new(real(&format!("{n}.x"), -r, r), real(&format!("{n}.y"), -r, r)) }
pub fn near3(a: Point3, b: Point3, m: &str) { near(a.x, b.x, m); near(a.y, b.y, m); near(a.z, b.z, m) }
pub fn near3_tol(a: Point3, b: Point3, t: f64, m: &str) { near_tol(a.x, b.x, t, m); near_tol(a.y, b.y, t, m); near_tol(a.z, b.z, t, m) }
pub fn obs3(n: &str, a: Point3) { observe(&format!("{n}.x"), a.x); observe(&format!("{n}.y"), a.y); observe(&format!("{n}.z"), a.z) }
pub fn finite(a: f64, m: &str) { prove(is_symbolic(a) || a.is_finite(), m) }

pub const LT: i32 = 0; pub const LE: i32 = 1; pub const EQ: i32 = 2; pub const NE: i32 = 3;
pub fn f_all(v: impl IntoIterator<Item = F>) -> F { v.into_iter().fold(f_const(true), f_and) }
pub fn f_any(v: impl IntoIterator<Item = F>) -> F { v.into_iter().fold(f_const(false), f_or) }
/// A real in steps of nothing: a concrete structural choice among the given values.
pub fn pick<T: Clone>(n: &str, v: &[T]) -> T { v[choice(n, v.len())].clone() }
pub const REAL: i32 = 0; pub const LATTICE: i32 = 1; pub const FP: i32 = 2; pub const LINEAR: i32 = 3;
