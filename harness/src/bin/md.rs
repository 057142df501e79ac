//! Matrix data, explicit providers, and both with rows removed.
//! Modes: `data <count>` (MatrixData), `rows <count>` (row removal histories on explicit providers),
//! `solve <count>` (results of solving matrix data).
use harness::gen_lp;
use harness::json::{self, J, Out};
use harness::observe;
use harness::prov::{Full, Partial, Plain, R, q, r};
use harness::rng::Rng;
use harness::run::{self, Lu, Rows};
use num_traits::Zero;
use relp::algorithm::SolveRelaxation;
use relp::algorithm::OptimizationResult;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::filter::{Filtered, ToFiltered};
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::RemoveRows;
use relp::algorithm::two_phase::matrix_provider::matrix_data::{Column as Shown, MatrixData};
use relp::algorithm::two_phase::matrix_provider::column::{Column, DenseSliceIterator, SparseColumn};
use relp::algorithm::two_phase::matrix_provider::column::identity::{Identity, IdentityColumn};
use relp::algorithm::two_phase::phase_one::PartialInitialBasis;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, Vector};
use relp::data::linear_program::elements::VariableType;
use relp::data::linear_program::general_form::Variable;
use relp_num::NonZero;

struct D {
    rows: Vec<Vec<R>>,
    b: Vec<R>,
    ranges: Vec<R>,
    counts: [usize; 4],
    cost: Vec<R>,
    upper: Vec<Option<R>>,
}

fn value(g: &mut Rng, style: usize) -> R {
    match style { 0 => r(g.int(-1, 1)), 1 => r(g.int(-4, 4)), _ => q(g.int(-6, 6), g.int(1, 3)) }
}

fn data(g: &mut Rng, solvable: bool) -> D {
    let large = !solvable && g.chance(5);
    let n = if g.chance(5) { 1 } else if large { 5 + g.below(8) } else { 1 + g.below(5) };
    let mut counts = [0; 4];
    for c in &mut counts { if g.chance(65) { *c = g.below(if large { 7 } else { 3 }); } }
    if g.chance(20) { counts[0] += 2; }
    if solvable { while counts.iter().sum::<usize>() > 6 { counts[g.below(4)] = 0; } }
    let m: usize = counts.iter().sum();
    let style = g.below(3);
    let density = *g.pick(&[30u64, 60, 100]);
    let mut rows: Vec<Vec<R>> = (0..m).map(|_| (0..n).map(|_| if g.chance(density) { value(g, style) } else { R::zero() }).collect()).collect();
    // redundant equality rows
    if counts[0] >= 2 && g.chance(60) {
        let t = g.below(counts[0]);
        let s = g.below(counts[0]);
        let f = r(g.int(1, 2));
        if s != t { rows[t] = rows[s].iter().map(|x| x * &f).collect(); }
    }
    let x: Vec<R> = (0..n).map(|_| if g.chance(40) { R::zero() } else { r(g.int(0, 3)) }).collect();
    let mut b: Vec<R> = (0..m).map(|_| if g.chance(30) { R::zero() } else { r(g.int(0, 7)) }).collect();
    if g.chance(70) {
        // feasible by construction where the sign allows it
        for i in 0..m {
            let v: R = rows[i].iter().zip(&x).map(|(a, b)| a * b).sum();
            if v < R::zero() { for e in &mut rows[i] { *e = -&*e; } }
            let v = if v < R::zero() { -v } else { v };
            b[i] = if i < counts[0] { v } else if i < counts[0] + counts[1] + counts[2] { v + r(g.int(0, 2)) } else { v };
        }
    }
    let ranges = (0..counts[1]).map(|_| r(g.int(1, 6))).collect();
    let cost = (0..n).map(|_| if g.chance(30) { R::zero() } else { value(g, style) }).collect();
    let upper = (0..n).map(|_| { let low = if g.chance(20) { 0 } else { 1 }; if g.chance(50) { Some(r(g.int(low, 6))) } else { None } }).collect();
    D { rows, b, ranges, counts, cost, upper }
}

fn head(d: &D) -> Vec<(&'static str, J)> {
    vec![
        ("n", J::I(d.cost.len() as i64)),
        ("rows", json::mat(&d.rows)),
        ("b", json::vec(&d.b)),
        ("ranges", json::vec(&d.ranges)),
        ("counts", json::ints(&d.counts)),
        ("cost", json::vec(&d.cost)),
        ("upper", J::A(d.upper.iter().map(json::opt).collect())),
    ]
}

fn with_data<T>(d: &D, f: impl FnOnce(&MatrixData<'_, R>) -> T) -> T {
    let n = d.cost.len();
    let m = d.rows.len();
    let cols: Vec<Vec<(usize, R)>> = (0..n).map(|j| (0..m).filter(|&i| d.rows[i][j].is_not_zero()).map(|i| (i, d.rows[i][j].clone())).collect()).collect();
    let constraints: SparseMatrix<R, R, ColumnMajor> = ColumnMajor::new(cols, m, n);
    let b = DenseVector::new(d.b.clone(), m);
    let variables: Vec<Variable<R>> = (0..n).map(|j| Variable {
        variable_type: VariableType::Continuous,
        cost: d.cost[j].clone(),
        lower_bound: Some(R::zero()),
        upper_bound: d.upper[j].clone(),
        shift: R::zero(),
        flipped: false,
    }).collect();
    let p = MatrixData::new(&constraints, &b, d.ranges.iter().collect(), d.counts[0], d.counts[1], d.counts[2], d.counts[3], &variables);
    f(&p)
}

fn cost(c: Option<&R>) -> R { c.cloned().unwrap_or_else(R::zero) }

fn subset(g: &mut Rng, n: usize) -> Vec<usize> {
    match g.below(5) {
        0 => vec![],
        1 if n > 0 => vec![g.below(n)],
        2 if n > 0 => { let k = g.below(n); (0..n).filter(|&i| i != k).collect() }
        3 => (0..n).collect(),
        _ => (0..n).filter(|_| g.chance(50)).collect(),
    }
}

fn under<MP: MatrixProvider>(f: &RemoveRows<'_, MP>, m: usize) -> J {
    json::ints(&(0..m).map(|i| f.get_underlying_row_index(i)).collect::<Vec<_>>())
}

fn main() {
    let a = run::args();
    let mode = a.rest[0].clone();
    let count: usize = a.rest[1].parse().unwrap();
    let mut g = Rng::new(a.seed ^ 0x3d);
    let mut out = Out::new(&a.out);
    for id in 1..=count {
        let mut h = vec![("id", J::I(id as i64))];
        match mode.as_str() {
            "data" => {
                h.push(("kind", json::s("md")));
                let d = data(&mut g, false);
                h.extend(head(&d));
                let rem = subset(&mut g, d.counts[0]);
                h.push(("rem", json::ints(&rem)));
                let total = d.cost.len() + 2 * d.counts[1] + d.counts[2] + d.counts[3] + d.upper.iter().flatten().count();
                let x: Vec<R> = (0..total).map(|_| if g.chance(40) { R::zero() } else { r(g.int(1, 5)) }).collect();
                h.push(("x", json::vec(&x)));
                let text = J::O(h.clone()).text();
                let res = run::guarded(|| text, || with_data(&d, |p| {
                    let mut o = observe::provider(p, |j| cost(p.cost_value(j)), |v| v, Some(&x));
                    o.push(("pivots", observe::pivots(&p.pivot_element_indices())));
                    o.push(("ninit", J::I(p.nr_initial_elements() as i64)));
                    let f = RemoveRows::new(p, rem.clone());
                    let mut fo = observe::provider(&f, |j| cost(f.cost_value(j)), |v| v, Some(&x));
                    fo.push(("pivots", observe::pivots(&f.pivot_element_indices())));
                    fo.push(("ninit", J::I(f.nr_initial_elements() as i64)));
                    let under = under(&f, f.nr_rows());
                    let m = p.nr_rows();
                    let unit = |i| {
                        let (a, b) = (IdentityColumn::new(i), <Shown<R> as Identity>::identity(i, m));
                        J::A(vec![
                            observe::texts(m, &a), observe::texts(m, &b),
                            json::vec(&harness::prov::dense_of(a.iter().map(|(k, _)| (k, r(1))), m)),
                            json::vec(&harness::prov::dense_of(a.into_iter().map(|(k, _)| (k, r(1))), m)),
                            json::vec(&harness::prov::dense_of(b.iter().map(|(k, v)| (k, v.clone())), m)),
                        ])
                    };
                    o.push(("units", J::A((0..m).map(unit).collect())));
                    let explicit = |j| SparseColumn::new(p.column(j).into_iter().collect::<Vec<(usize, R)>>());
                    o.push(("explicit", J::A((0..p.nr_columns()).map(|j| {
                        let c = explicit(j);
                        J::A(vec![
                            observe::texts(m, &c),
                            json::vec(&harness::prov::dense_of(c.iter().map(|(k, v)| (k, v.clone())), m)),
                            json::vec(&harness::prov::dense_of(c.into_iter(), m)),
                            {
                                // all values in a row: zeros are passed over
                                let all = harness::prov::dense_of(p.column(j).into_iter(), m);
                                let seen: Vec<(usize, R)> = DenseSliceIterator::new(&all).map(|(k, v)| (k, v.clone())).collect();
                                if seen.iter().any(|(_, v)| *v == r(0)) { J::A(vec![]) } else { json::vec(&harness::prov::dense_of(seen.into_iter(), m)) }
                            },
                        ])
                    }).collect())));
                    vec![
                        ("st", json::s("ok")),
                        ("obs", J::O(o)),
                        ("fobs", J::O(fo)),
                        ("under", under),
                        ("filtered", json::ints(f.filtered_rows())),
                        ("deleted", J::I(f.nr_constraints_deleted() as i64)),
                    ]
                }));
                h.push(("result", match res { Ok(v) => J::O(v), Err(m) => run::panicked(&m) }));
            }
            "rows" => {
                h.push(("kind", json::s("rows")));
                let m = if g.chance(5) { 10 + g.below(30) } else { 1 + g.below(9) };
                let n = 1 + g.below(4);
                let p = if g.chance(50) { gen_lp::random(&mut g, m, n) } else { gen_lp::random_full(&mut g, m, n) };
                h.extend(run::std_json(&p));
                let rem = subset(&mut g, m);
                h.push(("rem", json::ints(&rem)));
                // positions among the remaining rows, deleted one after the other
                let mut left = m - rem.len();
                let mut del = vec![];
                for _ in 0..g.below(4) { if left > 0 { del.push(g.below(left)); left -= 1; } }
                h.push(("del", json::ints(&del)));
                let wrap = g.below(3);
                h.push(("wrap", J::I(wrap as i64)));
                let text = J::O(h.clone()).text();
                let res = run::guarded(|| text, || {
                    fn go<MP: PartialInitialBasis + 'static>(p: &MP, rem: &[usize], del: &[usize]) -> Vec<(&'static str, J)>
                    where
                        MP: MatrixProvider<Column = harness::prov::Col, Rhs = R>,
                        for<'a> MP: MatrixProvider<Cost<'a> = &'a R>,
                    {
                        let f = p.to_filtered(rem.to_vec());
                        let filtered = json::ints(f.filtered_rows());
                        let mut w = RemoveRows::new(p, rem.to_vec());
                        let mut steps = vec![];
                        for &i in del {
                            w.delete_row(i);
                            steps.push(J::O(vec![
                                ("under", under(&w, w.nr_rows())),
                                ("filtered", json::ints(w.filtered_rows())),
                                ("deleted", J::I(w.nr_constraints_deleted() as i64)),
                            ]));
                        }
                        let mut fo = observe::provider(&w, |j| w.cost_value(j).clone(), |v| v, None);
                        fo.push(("pivots", observe::pivots(&w.pivot_element_indices())));
                        fo.push(("ninit", J::I(w.nr_initial_elements() as i64)));
                        let under_now = under(&w, w.nr_rows());
                        let o = observe::provider(&f, |j| f.cost_value(j).clone(), |v| v, None);
                        vec![
                            ("st", json::s("ok")),
                            ("obs", J::O(o)), ("fobs", J::O(fo)), ("under", under_now),
                            ("filtered", filtered), ("steps", J::A(steps)),
                        ]
                    }
                    match wrap { 0 => go(&Partial(p.clone()), &rem, &del), _ => go(&Full(p.clone()), &rem, &del) }
                });
                h.push(("result", match res { Ok(v) => J::O(v), Err(m) => run::panicked(&m) }));
            }
            _ => {
                h.push(("kind", json::s("prob")));
                let d = data(&mut g, true);
                let lu = g.chance(60);
                let filtered = g.chance(25);
                h.push(("bi", json::s(if lu { "lu" } else { "rows" })));
                h.push(("path", json::s(if filtered { "filtered" } else { "whole" })));
                let rem = if filtered { subset(&mut g, d.counts[0]) } else { vec![] };
                // the problem in words
                let none = || J::A(vec![]);
                let some = |v: &R| J::A(vec![json::rat(v)]);
                let mut prows = vec![];
                for (i, row) in d.rows.iter().enumerate() {
                    if rem.contains(&i) { continue; }
                    let [e, ra, up, _] = d.counts;
                    let (lo, hi) = if i < e { (some(&d.b[i]), some(&d.b[i])) }
                        else if i < e + ra { (some(&(&d.b[i] - &d.ranges[i - e])), some(&d.b[i])) }
                        else if i < e + ra + up { (none(), some(&d.b[i])) }
                        else { (some(&d.b[i]), none()) };
                    prows.push(J::O(vec![("a", json::vec(row)), ("lo", lo), ("hi", hi)]));
                }
                let n = d.cost.len();
                h.push(("P", J::O(vec![
                    ("n", J::I(n as i64)),
                    ("cost", json::vec(&d.cost)),
                    ("lo", J::A((0..n).map(|_| some(&R::zero())).collect())),
                    ("hi", J::A(d.upper.iter().map(json::opt).collect())),
                    ("rows", J::A(prows)),
                ])));
                let text = J::O(h.clone()).text();
                let res = run::guarded(|| text, || with_data(&d, |p| {
                    let w = RemoveRows::new(p, rem.clone());
                    let o = match (filtered, lu) {
                        (false, true) => p.solve_relaxation::<Lu>(),
                        (false, false) => p.solve_relaxation::<Rows>(),
                        (true, _) => solve_removed(&w, lu),
                    };
                    match o {
                        OptimizationResult::FiniteOptimum(v) => OptimizationResult::FiniteOptimum(p.reconstruct_solution(v)),
                        o => o,
                    }
                }));
                h.push(("result", match res { Ok(v) => run::result(&v), Err(m) => run::panicked(&m) }));
            }
        }
        out.line(&J::O(h));
    }
    out.finish();
}

/// Read the filtered provider into an explicit one, and solve that with all offered pivots.
fn solve_removed(w: &RemoveRows<'_, MatrixData<'_, R>>, lu: bool) -> OptimizationResult<R> {
    let m = w.nr_rows();
    let p = harness::prov::Std {
        m,
        cols: (0..w.nr_columns()).map(|j| harness::prov::dense(&w.column(j), m)).collect(),
        cost: (0..w.nr_columns()).map(|j| cost(w.cost_value(j))).collect(),
        rhs: w.right_hand_side().into_iter().collect(),
        pivots: w.pivot_element_indices(),
    };
    let _ = Plain(p.clone());
    if lu { Partial(p).solve_relaxation::<Lu>() } else { Partial(p).solve_relaxation::<Rows>() }
}
