//! Tableaus driven through histories of the harness's choosing, with every query and every
//! pivot rule asked along the way.
use harness::gen_lp::*;
use harness::json::{self, J, Out};
use harness::prov::{Plain, R, Std, dense};
use harness::rng::Rng;
use harness::run::{self, Lu, Rows};
use harness::trace::{self, Tracing, unpack};
use num_traits::Zero;
use relp::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, FirstProfitableWithMemory, PivotRule, SteepestDescentAlongObjective, SteepestDescentAlongVariable};
use relp::algorithm::two_phase::tableau::{BasisChangeComputationInfo, Tableau};
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer};
use relp::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;

type T<'a, IM> = Tableau<Tracing<IM>, NonArtificial<'a, Plain>>;

fn query(q: &str, i: usize, j: usize, out: J) {
    trace::log(J::O(vec![("ev", json::s("query")), ("q", json::s(q)), ("i", J::I(i as i64)), ("j", J::I(j as i64)), ("out", out)]));
}
fn rule(name: &str, sel: &Option<(usize, R)>) {
    let (s, c) = match sel {
        Some((j, c)) => (J::A(vec![J::I(*j as i64)]), json::rat(c)),
        None => (J::A(vec![]), json::rat(&R::zero())),
    };
    trace::log(J::O(vec![("ev", json::s("rule")), ("rule", json::s(name)), ("sel", s), ("cost", c)]));
}

fn copy(i: &BasisChangeComputationInfo<R>) -> BasisChangeComputationInfo<R> {
    BasisChangeComputationInfo {
        pivot_row_index: i.pivot_row_index,
        pivot_column_index: i.pivot_column_index,
        leaving_column_index: i.leaving_column_index,
        column_before_change: i.column_before_change.clone(),
        work_vector: i.work_vector.clone(),
        basis_inverse_row: i.basis_inverse_row.clone(),
    }
}

fn ask<IM: InverseMaintainer<F = R>>(t: &T<IM>, g: &mut Rng) {
    let (m, n) = (t.nr_rows(), t.nr_columns());
    if n == 0 { return; }
    let j = g.below(n);
    match g.below(9) {
        0 => query("relcost", 0, j, json::rat(&t.relative_cost(j))),
        1 => query("column", 0, j, json::vec(&unpack(t.generate_column(j).column()))),
        2 => if m > 0 { let i = g.below(m); query("element", i, j, json::opt(&t.generate_element(i, j))) },
        3 => query("original", 0, j, json::vec(&dense(&t.original_column(j), m))),
        4 => query("inbasis", 0, j, J::I(t.is_in_basis(j) as i64)),
        5 => query("value", 0, j, json::rat(&t.variable_value(j))),
        6 => query("bfs", 0, 0, json::vec(&unpack(&t.current_bfs()))),
        7 => query("objective", 0, 0, json::rat(&t.objective_function_value())),
        _ => query("size", 0, 0, json::ints(&[m, n])),
    }
}

fn drive<IM: InverseMaintainer<F = R>>(p: &Plain, basis: &[usize], g: &mut Rng, len: usize, rules: u64, queries: u64) {
    let im = Tracing::<IM>::from_basis(basis, p);
    let mut t: T<IM> = Tableau::new_with_inverse_maintainer(p, im, basis.iter().copied().collect());
    let mut first: FirstProfitable = PivotRule::<R>::new(&t);
    let mut memory: FirstProfitableWithMemory = PivotRule::<R>::new(&t);
    let mut variable: SteepestDescentAlongVariable = PivotRule::<R>::new(&t);
    let mut objective: SteepestDescentAlongObjective<R> = PivotRule::<R>::new(&t);
    let follow = g.below(5);
    for step in 0..=len {
        let (m, n) = (t.nr_rows(), t.nr_columns());
        if n == 0 { break; }
        // A rule that remembers must also be right when it is asked rarely.
        let mut sels: Vec<Option<(usize, R)>> = vec![];
        if g.chance(rules) {
            let s = first.select_primal_pivot_column(&t);
            rule("first", &s); sels.push(s);
            if g.chance(70) { let s = memory.select_primal_pivot_column(&t); rule("memory", &s); sels.push(s); }
            let s = variable.select_primal_pivot_column(&t);
            rule("variable", &s); sels.push(s);
            let s = objective.select_primal_pivot_column(&t);
            rule("objective", &s); sels.push(s);
        }
        for _ in 0..2 { if g.chance(queries) { ask(&t, g); } }
        if step == len || m == 0 { break; }
        // choose the next exchange
        let mut done = false;
        for attempt in 0..12 {
            let wish = if follow < 4 && attempt == 0 { sels.get(follow).cloned().flatten().map(|x| x.0) } else { None };
            let j = wish.unwrap_or_else(|| g.below(n));
            if t.is_in_basis(j) { continue; }
            let cost = t.relative_cost(j);
            let info = t.generate_column(j);
            let chosen = t.select_primal_pivot_row(info.column());
            query("row", 0, j, J::A(chosen.iter().map(|&r| J::I(r as i64)).collect()));
            let zero_rows: Vec<usize> = info.column().iter()
                .filter(|(i, _)| t.current_bfs().iter().all(|(k, _)| k != t_basis(&t, *i)))
                .map(|(i, _)| i).collect();
            let row = if !zero_rows.is_empty() && g.chance(30) { Some(*g.pick(&zero_rows)) } else { chosen };
            if let Some(row) = row {
                let info = t.bring_into_basis(j, row, info, cost);
                PivotRule::<R>::after_basis_update(&mut first, copy(&info), &t);
                PivotRule::<R>::after_basis_update(&mut memory, copy(&info), &t);
                PivotRule::<R>::after_basis_update(&mut variable, copy(&info), &t);
                objective.after_basis_update(info, &t);
                done = true;
                break;
            }
        }
        if !done { break; }
    }
}

/// The basis column of a row, through public queries.
fn t_basis<IM: InverseMaintainer<F = R>>(t: &T<IM>, i: usize) -> usize {
    (0..t.nr_columns()).find(|&j| t.is_in_basis(j) && {
        let c = unpack(t.generate_column(j).column());
        (0..c.len()).all(|k| c[k].is_zero() != (k == i))
    }).unwrap_or(usize::MAX)
}

fn problem(g: &mut Rng, m: usize, n: usize) -> Option<(Std, Vec<usize>)> {
    let p = match g.below(4) {
        0 => random_full(g, m, n),
        1 => degenerate(g, m.max(1), n),
        2 => { let all = classics(); g.pick(&all).clone() }
        _ => random(g, m, n.max(m)),
    };
    if p.pivots.len() == p.m && g.chance(50) {
        let b = p.pivots.iter().map(|x| x.1).collect();
        return Some((p, b));
    }
    let b = feasible_basis(g, &p)?;
    Some((p, b))
}

fn main() {
    let a = run::args();
    let count: usize = a.rest[0].parse().unwrap();
    let mut g = Rng::new(a.seed ^ 0x7ab);
    let mut out = Out::new(&a.out);
    let mut id = 0;
    while id < count {
        let max = if g.chance(8) { 8 } else { 5 };
        let m = 1 + g.below(max);
        let n = 1 + g.below(max + 3);
        // Veterans see several rebuilds of the basis inverse; with a zero right-hand side hardly
        // any exchange is ruled out, so they reach them in many ways.
        let veteran = (id + 1) % 5 == 2;
        let found = if veteran {
            let m = 1 + g.below(3);
            let n = 1 + g.below(3);
            let mut p = random_full(&mut g, m, n);
            if g.chance(70) { for b in &mut p.rhs { *b = R::zero(); } }
            for c in &mut p.cost { if g.chance(50) { *c = R::zero(); } }
            let basis = p.pivots.iter().map(|x| x.1).collect();
            Some((p, basis))
        } else { problem(&mut g, m, n) };
        let Some((p, basis)) = found else { continue };
        id += 1;
        let lu = veteran || g.chance(70);
        let long = id % 6 == 0;
        let len = if veteran { 33 + g.below(70) } else if long { 34 + g.below(20) } else { g.below(10) };
        let mut head = vec![
            ("id", J::I(id as i64)),
            ("kind", json::s("tab")),
            ("path", json::s("tab")),
            ("bi", json::s(if lu { "lu" } else { "rows" })),
            ("rule", json::s("all")),
            ("start", json::ints(&basis)),
            ("walk", J::I(len as i64)),
        ];
        head.extend(run::std_json(&p));
        let (rules, queries) = if veteran { (5, 20) } else if long { (40, 100) } else { (100, 100) };
        let d = J::O(head.clone()).text();
        trace::start(100_000);
        let p = Plain(p);
        let res = run::guarded(|| d, || if lu { drive::<Lu>(&p, &basis, &mut g, len, rules, queries) } else { drive::<Rows>(&p, &basis, &mut g, len, rules, queries) });
        head.push(("events", J::A(trace::finish())));
        head.push(("result", match res { Ok(()) => J::O(vec![("st", json::s("done"))]), Err(m) => run::panicked(&m) }));
        out.line(&J::O(head));
    }
    out.finish();
}
