//! Running the code under test: panics are data, hangs end the process with a record.
use std::cell::RefCell;
use std::panic::{self, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::phase_one::{FeasibilityComputeTrait, Rank, RankedFeasibilityResult};
use relp::algorithm::two_phase::phase_two;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::Tableau;
use relp::algorithm::two_phase::tableau::inverse_maintenance::InverseMaintainer;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::Carry;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;

use crate::json::{self, J};
use crate::prov::{Full, Partial, Plain, R, Std};
use crate::trace::{self, Tracing, unpack};

pub type Lu = Carry<R, LUDecomposition<R>>;
pub type Rows = Carry<R, BasisInverseRows<R>>;

thread_local! {
    static MSG: RefCell<String> = const { RefCell::new(String::new()) };
}
thread_local! {
    static OVERFLOWED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Whether arithmetic with numbers of 64 bits has overflowed since this was last asked.
pub fn overflowed() -> bool { OVERFLOWED.with(|o| o.replace(false)) }
static CURRENT: Mutex<Option<std::fs::File>> = Mutex::new(None);
static WATCH: Mutex<Option<(Instant, String)>> = Mutex::new(None);

/// Command line: `<bin> <out file> <seed> <tier> [more]`.
pub struct Args {
    pub out: String,
    pub seed: u64,
    pub thorough: bool,
    pub rest: Vec<String>,
}

pub fn args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let args = Args {
        out: a[1].clone(),
        seed: a[2].parse().expect("seed"),
        thorough: a[3] == "thorough",
        rest: a[4..].to_vec(),
    };
    panic::set_hook(Box::new(|info| {
        let text = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string());
        // of the number type, not of the code under test
        let outside = info.location().is_none_or(|l| !l.file().starts_with("/repo/"));
        if outside && text.contains("with overflow") {
            OVERFLOWED.with(|o| o.set(true));
        }
        MSG.with(|m| *m.borrow_mut() = text);
    }));
    let hang_file = format!("{}.hang", args.out);
    let _ = std::fs::remove_file(&hang_file);
    *CURRENT.lock().unwrap() = Some(std::fs::File::create(format!("{}.cur", args.out)).expect("file"));
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        let w = WATCH.lock().unwrap();
        if let Some((since, what)) = w.as_ref() {
            if since.elapsed() > Duration::from_secs(20) {
                std::fs::write(&hang_file, what).unwrap();
                std::process::exit(3);
            }
        }
    });
    args
}

/// Run a piece of code under test. `describe` identifies the case should it not return.
pub fn guarded<T>(describe: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Result<T, String> {
    let text = describe();
    if let Some(f) = CURRENT.lock().unwrap().as_mut() {
        // identifies the case should the process die
        use std::os::unix::fs::FileExt;
        let _ = f.write_all_at(text.as_bytes(), 0);
        let _ = f.set_len(text.len() as u64);
    }
    *WATCH.lock().unwrap() = Some((Instant::now(), text));
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    *WATCH.lock().unwrap() = None;
    r.map_err(|_| MSG.with(|m| m.borrow().clone()))
}

pub fn panicked(msg: &str) -> J {
    let st = if msg == trace::CAP_PANIC { "cap" } else { "panic" };
    J::O(vec![("st", json::s(st)), ("msg", json::s(msg))])
}

pub fn result(r: &OptimizationResult<R>) -> J {
    match r {
        OptimizationResult::Infeasible => J::O(vec![("st", json::s("infeasible"))]),
        OptimizationResult::Unbounded => J::O(vec![("st", json::s("unbounded"))]),
        OptimizationResult::FiniteOptimum(v) => J::O(vec![
            ("st", json::s("opt")),
            ("x", json::vec(&unpack(v))),
        ]),
    }
}

/// How a run starts and which parts it uses.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Path { Plain, Partial, Full, Basis }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rule { First, Memory, Variable, Objective }
pub const RULES: [Rule; 4] = [Rule::First, Rule::Memory, Rule::Variable, Rule::Objective];
impl Path {
    pub fn name(self) -> &'static str {
        match self { Path::Plain => "plain", Path::Partial => "partial", Path::Full => "full", Path::Basis => "basis" }
    }
}
impl Rule {
    pub fn name(self) -> &'static str {
        match self { Rule::First => "first", Rule::Memory => "memory", Rule::Variable => "variable", Rule::Objective => "objective" }
    }
}

fn solve_path<IM: InverseMaintainer<F = R>>(p: &Std, path: Path) -> OptimizationResult<R> {
    match path {
        Path::Plain => Plain(p.clone()).solve_relaxation::<IM>(),
        Path::Partial => Partial(p.clone()).solve_relaxation::<IM>(),
        Path::Full => Full(p.clone()).solve_relaxation::<IM>(),
        Path::Basis => unreachable!(),
    }
}

fn solve_basis<IM: InverseMaintainer<F = R>>(p: &Std, basis: &[usize], rule: Rule) -> OptimizationResult<R> {
    let p = Plain(p.clone());
    let im = IM::from_basis(basis, &p);
    let mut t = Tableau::<_, NonArtificial<_>>::new_with_inverse_maintainer(&p, im, basis.iter().copied().collect());
    match rule {
        Rule::First => phase_two::primal::<_, _, FirstProfitable>(&mut t),
        Rule::Memory => phase_two::primal::<_, _, FirstProfitableWithMemory>(&mut t),
        Rule::Variable => phase_two::primal::<_, _, SteepestDescentAlongVariable>(&mut t),
        Rule::Objective => phase_two::primal::<_, _, SteepestDescentAlongObjective<_>>(&mut t),
    }
}

/// Solve a standard form problem; answers the events (if traced) and the result.
pub fn solve(p: &Std, path: Path, lu: bool, basis: &[usize], rule: Rule, traced: bool, cap: usize, id: impl FnOnce() -> String) -> (Vec<J>, J) {
    if traced { trace::start(cap) } else { trace::start_light(cap) }
    let r = guarded(id, || match (path, lu, traced) {
        (Path::Basis, true, _) => solve_basis::<Tracing<Lu>>(p, basis, rule),
        (Path::Basis, false, _) => solve_basis::<Tracing<Rows>>(p, basis, rule),
        (_, true, _) => solve_path::<Tracing<Lu>>(p, path),
        (_, false, _) => solve_path::<Tracing<Rows>>(p, path),
    });
    let events = trace::finish();
    let res = match &r { Ok(r) => result(r), Err(m) => panicked(m) };
    (if traced { events } else { vec![] }, res)
}

fn bfs_path<IM: InverseMaintainer<F = R>>(p: &Std, path: Path) -> J {
    let r: RankedFeasibilityResult<IM> = match path {
        Path::Partial => Partial(p.clone()).compute_bfs_giving_im(),
        _ => Plain(p.clone()).compute_bfs_giving_im(),
    };
    match r {
        RankedFeasibilityResult::Infeasible => J::O(vec![("st", json::s("infeasible"))]),
        RankedFeasibilityResult::Feasible { rank, nr_artificial_variables, basis, .. } => {
            let removed = match rank { Rank::Full => vec![], Rank::Deficient(rows) => rows };
            let mut basis: Vec<usize> = basis.into_iter().collect();
            basis.sort();
            J::O(vec![
                ("st", json::s("feasible")),
                ("removed", json::ints(&removed)),
                ("nart", J::I(nr_artificial_variables as i64)),
                ("basis", json::ints(&basis)),
            ])
        }
    }
}

/// Phase one only.
pub fn bfs(p: &Std, path: Path, lu: bool, cap: usize, id: impl FnOnce() -> String) -> (Vec<J>, J) {
    trace::start(cap);
    let r = guarded(id, || if lu { bfs_path::<Tracing<Lu>>(p, path) } else { bfs_path::<Tracing<Rows>>(p, path) });
    let events = trace::finish();
    let res = match r { Ok(r) => r, Err(m) => panicked(&m) };
    (events, res)
}

/// The same for a provider the caller made (matrix data, networks).
pub fn solve_with<MP: MatrixProvider>(f: impl FnOnce() -> OptimizationResult<R>, cap: usize, id: impl FnOnce() -> String, _p: &MP) -> (Vec<J>, J) {
    trace::start(cap);
    let r = guarded(id, f);
    let events = trace::finish();
    let res = match &r { Ok(r) => result(r), Err(m) => panicked(m) };
    (events, res)
}

pub fn std_json(p: &Std) -> Vec<(&'static str, J)> {
    let rows: Vec<Vec<R>> = (0..p.m).map(|i| p.cols.iter().map(|c| c[i].clone()).collect()).collect();
    vec![
        ("m", J::I(p.m as i64)),
        ("n", J::I(p.n() as i64)),
        ("A", json::mat(&rows)),
        ("b", json::vec(&p.rhs)),
        ("c", json::vec(&p.cost)),
        ("pivots", J::A(p.pivots.iter().map(|&(i, j)| J::A(vec![J::I(i as i64), J::I(j as i64)])).collect())),
    ]
}
