pub mod sym;
pub mod common;
macro_rules! modules { ($($m:ident),*) => { $(mod $m;)* pub fn registry() -> Vec<H> { let mut v: Vec<H> = Vec::new(); $(v.extend_from_slice($m::LIST);)* v } } }
modules!(g01, g02, g03, g04, g05, g06, g07, g08, g09, g10, g11, g12, g13, g14, g15, g16, g17, g18, g19, g20, g21, g22, g23, g24, long);
pub type H = (&'static str, fn());
pub fn main() {
    let n = std::env::args().nth(1).unwrap_or_default();
    if n == "list" { for h in registry() { println!("{}", h.0) } return; }
    for h in registry() { if h.0 == n { sym::run(h.1); return; } }
    eprintln!("no such harness {n}"); std::process::exit(5)
}
