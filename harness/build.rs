//! Makes the two network programs in /repo/examples callable: as modules, with an entry point of our own.
use std::{env, fs, path::Path};

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    let out = env::var("OUT_DIR").unwrap();
    for name in ["shortest_path", "max_flow"] {
        let from = format!("/repo/examples/{name}.rs");
        println!("cargo:rerun-if-changed={from}");
        let text = fs::read_to_string(&from).expect("example");
        let mut code: String = text.lines()
            .filter(|l| !l.trim_start().starts_with("//!") && !l.trim_start().starts_with("#!["))
            .map(|l| if l.starts_with("fn main()") { "#[allow(dead_code)] fn example_main() {\n".to_string() } else { format!("{l}\n") })
            .collect();
        code.push_str("
pub fn solve(data: SparseMatrix<Rational64, Rational64, ColumnMajor>, s: usize, t: usize, lu: bool) -> OptimizationResult<RationalBig> {
    let p = Primal::new(data, s, t);
    if lu { p.solve_relaxation::<crate::Lu>() } else { p.solve_relaxation::<crate::Rows>() }
}
pub fn provider(data: SparseMatrix<Rational64, Rational64, ColumnMajor>, s: usize, t: usize) -> impl MatrixProvider {
    Primal::new(data, s, t)
}
");
        fs::write(Path::new(&out).join(format!("{name}.rs")), code).unwrap();
    }
}
