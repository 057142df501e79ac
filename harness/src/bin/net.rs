//! Networks. Modes: `inc <count>` (incidence matrices), `solve <count>` (shortest paths and maximum flows).
#![feature(type_alias_impl_trait, impl_trait_in_assoc_type)]
#![allow(dead_code)]
use harness::json::{self, J, Out};
use harness::prov::{Partial, Plain, R, Std, q, r};
use harness::rng::Rng;
use harness::run;
use num_traits::Zero;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::Vector;
use relp::data::linear_program::network::representation::{ArcDirection, ArcIncidenceColumn, IncidenceMatrix};
use relp_num::{Rational64, RationalBig};

pub type Lu = harness::run::Lu;
pub type Rows = harness::run::Rows;

mod shortest_path { include!(concat!(env!("OUT_DIR"), "/shortest_path.rs")); }
mod max_flow { include!(concat!(env!("OUT_DIR"), "/max_flow.rs")); }

/// Arcs (from, to, value) in column major order.
struct G { n: usize, arcs: Vec<(usize, usize, i64)> }

fn graph(g: &mut Rng, lo: i64, hi: i64) -> G {
    let n = if g.chance(4) { 7 + g.below(3) } else { 2 + g.below(5) };
    let density = *g.pick(&[10u64, 30, 50, 80, 100]);
    let mut arcs = vec![];
    for from in 0..n { for to in 0..n {
        if from != to && g.chance(density) {
            let v = loop { let v = g.int(lo, hi); if v != 0 { break v; } };
            arcs.push((from, to, v));
        }
    } }
    G { n, arcs }
}
fn matrix<F>(g: &G, f: impl Fn(i64) -> F) -> SparseMatrix<F, F, ColumnMajor>
where
    F: relp::data::linear_algebra::traits::SparseElement<F> + relp::data::linear_algebra::traits::SparseComparator,
{
    ColumnMajor::new((0..g.n).map(|j| g.arcs.iter().filter(|a| a.0 == j).map(|a| (a.1, f(a.2))).collect()).collect(), g.n, g.n)
}
fn arcs_json(g: &G) -> J { J::A(g.arcs.iter().map(|a| J::A(vec![J::I(a.0 as i64), J::I(a.1 as i64), J::I(a.2)])).collect()) }
fn sign(d: &ArcDirection) -> i64 { match d { ArcDirection::Incoming => 1, ArcDirection::Outgoing => -1 } }
fn col<'a>(it: impl Iterator<Item = (usize, &'a ArcDirection)>) -> J {
    J::A(it.map(|(i, d)| J::A(vec![J::I(i as i64), J::I(sign(d))])).collect())
}
fn owned(v: Vec<(usize, ArcDirection)>) -> J { col(v.iter().map(|(i, d)| (*i, d))) }

fn arithmetic(a: &R) -> J {
    let d = [ArcDirection::Incoming, ArcDirection::Outgoing];
    J::A(d.iter().map(|d| {
        let mut v = vec![a.clone() + d, a.clone() + d.clone(), a.clone() - d, a.clone() - d.clone(), a.clone() * d, a.clone() * d.clone(), a * d,
            a.clone() / d, a.clone() / d.clone()];
        let mut x = a.clone(); x += d; v.push(x);
        let mut x = a.clone(); x -= d.clone(); v.push(x);
        let mut x = a.clone(); x *= d; v.push(x);
        let mut x = a.clone(); x /= d.clone(); v.push(x);
        v.push(R::from(d)); v.push(R::from(d.clone()));
        J::O(vec![("d", J::I(sign(d))), ("v", json::vec(&v)), ("text", json::s(d.to_string()))])
    }).collect())
}

/// The flow problem on explicit columns of the incidence matrix: net outflow of s is maximised.
fn flow_std(g: &G, s: usize, t: usize) -> Std {
    let (inc, cap) = IncidenceMatrix::new(matrix(g, r), vec![t, s]);
    let (rows, e) = (g.n - 2, inc.nr_edges());
    let m = rows + e;
    let mut cols = vec![];
    let mut pivots = vec![];
    for j in 0..e {
        let mut c = vec![R::zero(); m];
        for (i, d) in ArcIncidenceColumn(inc.column(j)).iter() { c[i] = R::from(d); }
        c[rows + j] = r(1);
        cols.push(c);
    }
    for j in 0..e {
        let mut c = vec![R::zero(); m];
        c[rows + j] = r(1);
        cols.push(c);
        pivots.push((rows + j, e + j));
    }
    let cost = (0..2 * e).map(|j| if j >= e { R::zero() } else if g.arcs[j].0 == s { r(-1) } else if g.arcs[j].1 == s { r(1) } else { R::zero() }).collect();
    let rhs = (0..rows).map(|_| R::zero()).chain(cap.iter().cloned()).collect();
    Std { m, cols, cost, rhs, pivots }
}
/// Shortest path with the row of `s` removed, as explicit columns.
fn path_std(g: &G, s: usize, t: usize) -> Std {
    let (inc, cost) = IncidenceMatrix::new(matrix(g, r), vec![s]);
    let m = g.n - 1;
    let cols = (0..inc.nr_edges()).map(|j| harness::prov::dense(&ArcIncidenceColumn(inc.column(j)), m)).collect();
    let mut rhs = vec![R::zero(); m];
    rhs[if t < s { t } else { t - 1 }] = r(1);
    Std { m, cols, cost: cost.iter().cloned().collect(), rhs, pivots: vec![] }
}

/// What the maximum flow program of /repo/examples is made for: no arcs into the source, and no redundant vertex rows,
/// that is, every vertex connected with the source or the sink. (Outside of this, see known-findings.txt.)
fn example_flow(g: &G, s: usize, t: usize) -> bool {
    let mut reached = vec![false; g.n];
    reached[s] = true;
    reached[t] = true;
    for _ in 0..g.n { for a in &g.arcs { if reached[a.0] || reached[a.1] { reached[a.0] = true; reached[a.1] = true; } } }
    reached.iter().all(|&v| v) && g.arcs.iter().all(|a| a.1 != s)
}
/// Inputs on which the maximum flow program goes wrong.
fn known(id: usize) -> Option<(G, usize, usize)> {
    match id {
        1 => Some((G { n: 4, arcs: vec![(0, 1, 5), (1, 0, 5), (1, 3, 1)] }, 0, 3)),
        2 => Some((G { n: 4, arcs: vec![(0, 1, 1), (1, 0, 1), (1, 2, 1), (2, 3, 1)] }, 0, 3)),
        _ => None,
    }
}

fn main() {
    let a = run::args();
    let mode = a.rest[0].clone();
    let count: usize = a.rest[1].parse().unwrap();
    let mut g = Rng::new(a.seed ^ 0x4e7);
    let mut out = Out::new(&a.out);
    for id in 1..=count {
        let mut h = vec![("id", J::I(id as i64))];
        if mode == "inc" {
            let net = graph(&mut g, -9, 9);
            let p = *g.pick(&[0u64, 20, 50, 100]);
            let mut removed: Vec<usize> = (0..net.n).filter(|_| g.chance(p)).collect();
            g.shuffle(&mut removed);
            // rows taken out of a column afterwards
            let left = net.n - removed.len();
            let drop: Vec<usize> = (0..left).filter(|_| g.chance(30)).collect();
            let x = q(g.int(-9, 9), g.int(1, 5));
            h.extend(vec![("kind", json::s("inc")), ("n", J::I(net.n as i64)), ("arcs", arcs_json(&net)), ("removed", json::ints(&removed)),
                ("drop", json::ints(&drop)), ("x", json::rat(&x))]);
            let text = J::O(h.clone()).text();
            let res = run::guarded(|| text, || {
                let (inc, values) = IncidenceMatrix::new(matrix(&net, r), removed.clone());
                let e = inc.nr_edges();
                vec![
                    ("st", json::s("ok")),
                    ("nv", J::I(inc.nr_vertices() as i64)), ("ne", J::I(e as i64)),
                    ("values", json::vec(&values.iter().cloned().collect::<Vec<R>>())),
                    ("cols", J::A((0..e).map(|j| owned(inc.column(j))).collect())),
                    ("seen", J::A((0..e).map(|j| col(ArcIncidenceColumn(inc.column(j)).iter())).collect())),
                    ("moved", J::A((0..e).map(|j| owned(ArcIncidenceColumn(inc.column(j)).into_iter().collect())).collect())),
                    ("dropped", J::A((0..e).map(|j| col(ArcIncidenceColumn(inc.column(j)).into_filtered(&drop).iter())).collect())),
                    ("texts", J::A((0..e).map(|j| { let c = ArcIncidenceColumn(inc.column(j)); J::A((0..left).map(|i| json::s(c.index_to_string(i))).collect()) }).collect())),
                    ("unit", J::A((0..left).map(|i| col(ArcIncidenceColumn::identity(i, left).iter())).collect())),
                    ("arith", arithmetic(&x)),
                ]
            });
            h.push(("result", match res { Ok(v) => J::O(v), Err(m) => run::panicked(&m) }));
        } else {
            let path = g.chance(50);
            let net = if path { if g.chance(60) { graph(&mut g, 1, 9) } else { graph(&mut g, -3, 9) } } else { graph(&mut g, 1, 7) };
            let s = g.below(net.n);
            let t = loop { let t = g.below(net.n); if t != s { break t; } };
            let lu = g.chance(50);
            let mut way = *g.pick(&["example", "plain", "partial"]);
            if way == "example" && !path && !example_flow(&net, s, t) { way = "plain"; }
            let (mut path, mut net, mut s, mut t, mut lu) = (path, net, s, t, lu);
            if let Some((k, from, to)) = known(id) { net = k; s = from; t = to; path = false; lu = false; way = "example"; }
            h.extend(vec![("kind", json::s(if path { "sp" } else { "flow" })), ("path", json::s(way)), ("bi", json::s(if lu { "lu" } else { "rows" })),
                ("n", J::I(net.n as i64)), ("arcs", arcs_json(&net)), ("s", J::I(s as i64)), ("t", J::I(t as i64))]);
            let text = J::O(h.clone()).text();
            let res = run::guarded(|| text, || -> OptimizationResult<RationalBig> {
                let small = |net: &G| matrix(net, |v| Rational64::from(v));
                match (way, path) {
                    ("example", true) => shortest_path::solve(small(&net), s, t, lu),
                    ("example", false) => max_flow::solve(small(&net), s, t, lu),
                    ("plain", true) => { let p = Plain(path_std(&net, s, t)); if lu { p.solve_relaxation::<Lu>() } else { p.solve_relaxation::<Rows>() } }
                    ("plain", false) => { let p = Plain(flow_std(&net, s, t)); if lu { p.solve_relaxation::<Lu>() } else { p.solve_relaxation::<Rows>() } }
                    (_, true) => { let p = Partial(path_std(&net, s, t)); if lu { p.solve_relaxation::<Lu>() } else { p.solve_relaxation::<Rows>() } }
                    (_, false) => { let p = Partial(flow_std(&net, s, t)); if lu { p.solve_relaxation::<Lu>() } else { p.solve_relaxation::<Rows>() } }
                }
            });
            h.push(("result", match res { Ok(v) => run::result(&v), Err(m) => run::panicked(&m) }));
        }
        out.line(&J::O(h));
    }
    out.finish();
}
