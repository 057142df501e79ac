//! Linear programs in general form: generating them, taking them through presolving,
//! standardising, scaling and solving, and observing what each step made of them.
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::{OptimizationResult, SolveRelaxation};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::{LinearProgramType, Objective, RangedConstraintRelation, VariableType};
use relp::data::linear_program::general_form::{GeneralForm, Scalable, Variable};
use relp::data::linear_program::solution::Solution;
use relp_num::{Rational64, RationalBig};

use crate::json::{self, J};
use crate::prov::{Plain, R, Std, q};
use crate::rng::Rng;
use crate::run::{self, Lu, Rows};

/// A small rational, numerator and denominator.
pub type Q = (i64, i64);
pub fn big(v: Q) -> R { q(v.0, v.1) }

#[derive(Clone, Debug, PartialEq)]
pub enum Rel { Eq, Le, Ge, Range(Q) }

#[derive(Clone, Debug)]
pub struct Gp {
    pub max: bool,
    pub fixed: Q,
    pub rels: Vec<Rel>,
    pub b: Vec<Q>,
    /// Dense columns.
    pub cols: Vec<Vec<Q>>,
    pub vars: Vec<(Option<Q>, Option<Q>, Q)>,
    pub names: Vec<String>,
}

impl Gp {
    pub fn m(&self) -> usize { self.b.len() }
    pub fn n(&self) -> usize { self.vars.len() }
    /// The statement of the problem as intervals.
    pub fn json(&self) -> J {
        let opt = |v: &Option<Q>| json::opt(&v.map(big));
        J::O(vec![
            ("n", J::I(self.n() as i64)),
            ("max", J::B(self.max)),
            ("fixed", json::rat(&big(self.fixed))),
            ("cost", J::A(self.vars.iter().map(|v| json::rat(&big(v.2))).collect())),
            ("lo", J::A(self.vars.iter().map(|v| opt(&v.0)).collect())),
            ("hi", J::A(self.vars.iter().map(|v| opt(&v.1)).collect())),
            ("rows", J::A((0..self.m()).map(|i| {
                let b = big(self.b[i]);
                let (lo, hi) = match &self.rels[i] {
                    Rel::Eq => (Some(b.clone()), Some(b)),
                    Rel::Le => (None, Some(b)),
                    Rel::Ge => (Some(b), None),
                    Rel::Range(r) => (Some(&b - big(*r)), Some(b)),
                };
                J::O(vec![
                    ("a", J::A(self.cols.iter().map(|c| json::rat(&big(c[i]))).collect())),
                    ("lo", json::opt(&lo)),
                    ("hi", json::opt(&hi)),
                ])
            }).collect())),
            ("names", J::A(self.names.iter().map(json::s).collect())),
        ])
    }
}

fn small(v: Q) -> Rational64 {
    let x = Rational64::from(v.0);
    x / Rational64::from(v.1)
}

macro_rules! form {
    ($name:ident, $f:ty, $conv:expr) => {
        pub fn $name(p: &Gp) -> GeneralForm<$f> {
            let conv = $conv;
            let (m, n) = (p.m(), p.n());
            let cols: Vec<Vec<(usize, $f)>> = p.cols.iter()
                .map(|c| (0..m).filter(|&i| c[i].0 != 0).map(|i| (i, conv(c[i]))).collect())
                .collect();
            let constraints: SparseMatrix<$f, $f, ColumnMajor> = ColumnMajor::new(cols, m, n);
            GeneralForm::new(
                if p.max { Objective::Maximize } else { Objective::Minimize },
                constraints,
                p.rels.iter().map(|r| match r {
                    Rel::Eq => RangedConstraintRelation::Equal,
                    Rel::Le => RangedConstraintRelation::Less,
                    Rel::Ge => RangedConstraintRelation::Greater,
                    Rel::Range(r) => RangedConstraintRelation::Range(conv(*r)),
                }).collect(),
                DenseVector::new(p.b.iter().map(|&v| conv(v)).collect(), m),
                p.vars.iter().map(|v| Variable {
                    variable_type: VariableType::Continuous,
                    cost: conv(v.2),
                    lower_bound: v.0.map(conv),
                    upper_bound: v.1.map(conv),
                    shift: <$f>::zero(),
                    flipped: false,
                }).collect(),
                p.names.clone(),
                conv(p.fixed),
            )
        }
    };
}
form!(form_big, RationalBig, big);
form!(form_small, Rational64, small);

/// What to do with the problem.
#[derive(Clone, Copy, Debug)]
pub struct Steps {
    pub presolve: bool,
    pub scale: bool,
    /// Observe the representation, not only the final answer.
    pub observe: bool,
    /// Number of random objectives for vertices.
    pub points: usize,
    pub lu: bool,
    /// Solve it as well.
    pub solve: bool,
    /// Presolve a second time.
    pub again: bool,
    /// Scale the problem as it is stated, so before standardising.
    pub first: bool,
}

fn named<G: std::fmt::Display>(s: &Solution<G>) -> Vec<(&'static str, J)> {
    vec![
        ("val", json::rat(&s.objective_value)),
        ("names", J::A(s.solution_values.iter().map(|v| json::s(v.0.clone())).collect())),
        ("x", J::A(s.solution_values.iter().map(|v| json::rat(&v.1)).collect())),
    ]
}

pub fn ev(name: &'static str, mut rest: Vec<(&'static str, J)>) -> J {
    let mut v = vec![("ev", json::s(name))];
    v.append(&mut rest);
    J::O(v)
}
pub fn fail(step: &'static str, msg: &str) -> J {
    ev("panic", vec![("step", json::s(step)), ("msg", json::s(msg))])
}

fn sparse(y: &[R]) -> SparseVector<R, R> {
    SparseVector::new(y.iter().cloned().enumerate().filter(|v| !v.1.is_zero()).collect(), y.len())
}

macro_rules! take {
    ($name:ident, $f:ty) => {
        /// Take a problem through the steps; answers what was seen.
        pub fn $name(start: GeneralForm<$f>, s: Steps, g: &mut Rng, id: &str) -> Vec<J> {
            let mut events = vec![];
            let mut form = start;
            for _ in 0..(s.presolve as usize * (1 + s.again as usize)) {
                let r = run::guarded(|| id.to_string(), || form.presolve());
                match r {
                    Err(m) => { events.push(fail("presolve", &m)); return events; }
                    Ok(Ok(())) => events.push(ev("presolve", vec![("res", json::s("open"))])),
                    Ok(Err(LinearProgramType::Infeasible)) => { events.push(ev("presolve", vec![("res", json::s("infeasible"))])); return events; }
                    Ok(Err(LinearProgramType::Unbounded)) => { events.push(ev("presolve", vec![("res", json::s("unbounded"))])); return events; }
                    Ok(Err(LinearProgramType::FiniteOptimum(x))) => {
                        let mut v = vec![("res", json::s("opt"))];
                        v.extend(named(&x));
                        events.push(ev("presolve", v));
                        return events;
                    }
                }
            }
            // What to multiply the values of the variables with
            let mut factors: Option<Vec<R>> = None;
            if s.first {
                let before = form.clone();
                match run::guarded(|| id.to_string(), || {
                    let scaling = form.scale();
                    let mut ones = sparse(&vec![R::from(1); form.nr_variables()]);
                    scaling.scale_back(&mut ones);
                    let mut again = form.clone();
                    again.scale_back(scaling);
                    let mut other = before.clone();
                    let _ = other.scale();
                    let factors = (0..form.nr_variables()).map(|j| ones.get(j).cloned().unwrap_or_else(R::zero)).collect();
                    (again == before, other == form, factors)
                }) {
                    Err(m) => { events.push(fail("scale", &m)); return events; }
                    Ok((restored, repeatable, f)) => {
                        events.push(ev("scale", vec![("restored", J::B(restored)), ("repeatable", J::B(repeatable))]));
                        factors = Some(f);
                    }
                }
            }
            let counts = match run::guarded(|| id.to_string(), || form.standardize()) {
                Err(m) => { events.push(fail("standardize", &m)); return events; }
                Ok(c) => c,
            };
            let before = form.clone();
            let mut scaling = None;
            if s.scale {
                match run::guarded(|| id.to_string(), || {
                    let scaling = form.scale();
                    // and once more, to be undone
                    let mut again = form.clone();
                    again.scale_back(scaling);
                    let mut other = before.clone();
                    let scaling = other.scale();
                    let repeatable = other == form;
                    (scaling, again == before, repeatable)
                }) {
                    Err(m) => { events.push(fail("scale", &m)); return events; }
                    Ok((sc, restored, repeatable)) => {
                        events.push(ev("scale", vec![("restored", J::B(restored)), ("repeatable", J::B(repeatable))]));
                        scaling = Some(sc);
                    }
                }
            }
            let nv = form.nr_variables();
            let data = match run::guarded(|| id.to_string(), || form.derive_matrix_data(counts)) {
                Err(m) => { events.push(fail("derive", &m)); return events; }
                Ok(d) => d,
            };
            let read = run::guarded(|| id.to_string(), || {
                let m = data.nr_rows();
                let n = data.nr_columns();
                Std {
                    m,
                    cols: (0..n).map(|j| {
                        use relp::algorithm::two_phase::matrix_provider::column::Column;
                        let mut v = vec![R::zero(); m];
                        for (i, x) in data.column(j).iter() { v[i] = R::from(x.clone()); }
                        v
                    }).collect(),
                    cost: (0..n).map(|j| data.cost_value(j).map_or(R::zero(), |x| R::from(x.clone()))).collect(),
                    rhs: data.right_hand_side().into_iter().map(R::from).collect(),
                    pivots: vec![],
                }
            });
            let std = match read {
                Err(m) => { events.push(fail("read", &m)); return events; }
                Ok(s) => s,
            };
            // Solutions back to the named variables of the start
            let back = |mut v: SparseVector<R, R>| -> Solution<R> {
                let mut f = form.clone();
                if let Some(sc) = &scaling {
                    sc.scale_back(&mut v);
                    let mut other = before.clone();
                    let sc = other.scale();
                    f.scale_back(sc);
                }
                let mut x = f.compute_full_solution_with_reduced_solution::<R>(v);
                if let Some(factors) = &factors {
                    for ((_, value), f) in x.solution_values.iter_mut().zip(factors) { *value *= f; }
                }
                x
            };
            if s.observe {
                let maps = run::guarded(|| id.to_string(), || {
                    let zero = back(sparse(&vec![R::zero(); nv]));
                    let units: Vec<Solution<R>> = (0..nv).map(|k| {
                        let mut v = vec![R::zero(); nv];
                        v[k] = R::from(1);
                        back(sparse(&v))
                    }).collect();
                    // Any point whatsoever, with several values set
                    let mix: Vec<(Vec<R>, Solution<R>)> = (0..2).map(|_| {
                        let v: Vec<R> = (0..nv).map(|_| if g.chance(30) { R::zero() } else { q(g.int(0, 4), 1 + g.below(2) as i64) }).collect();
                        (v.clone(), back(sparse(&v)))
                    }).collect();
                    let mut points = vec![];
                    for k in 0..s.points {
                        let mut p = std.clone();
                        if k > 0 {
                            for c in &mut p.cost { *c = if g.chance(40) { R::zero() } else { R::from(g.int(-1, 3)) }; }
                            if k == 1 { for c in &mut p.cost { *c = R::from(g.int(0, 1)); } }
                        }
                        if let Ok(OptimizationResult::FiniteOptimum(y)) = run::guarded(|| id.to_string(), || Plain(p).solve_relaxation::<Rows>()) {
                            let y = crate::trace::unpack(&y);
                            let x = back(data.reconstruct_solution(sparse(&y)));
                            points.push((y, x));
                        }
                    }
                    (zero, units, mix, points)
                });
                match maps {
                    Err(m) => { events.push(fail("map back", &m)); return events; }
                    Ok((zero, units, mix, points)) => {
                        let rows: Vec<Vec<R>> = (0..std.m).map(|i| std.cols.iter().map(|c| c[i].clone()).collect()).collect();
                        events.push(ev("rep", vec![
                            ("A", json::mat(&rows)), ("b", json::vec(&std.rhs)), ("c", json::vec(&std.cost)),
                            ("n", J::I(std.n() as i64)), ("nv", J::I(nv as i64)),
                            ("zero", J::O(named(&zero))),
                            ("units", J::A(units.iter().map(|u| J::O(named(u))).collect())),
                            ("mix", J::A(mix.iter().map(|(v, x)| {
                                let mut o = vec![("v", json::vec(v))];
                                o.extend(named(x));
                                J::O(o)
                            }).collect())),
                            ("points", J::A(points.iter().map(|(y, x)| {
                                let mut v = vec![("y", json::vec(y))];
                                v.extend(named(x));
                                J::O(v)
                            }).collect())),
                        ]));
                    }
                }
            }
            if s.solve {
                let r = run::guarded(|| id.to_string(), || {
                    let r = if s.lu { data.solve_relaxation::<Lu>() } else { data.solve_relaxation::<Rows>() };
                    match r {
                        OptimizationResult::Infeasible => vec![("res", json::s("infeasible"))],
                        OptimizationResult::Unbounded => vec![("res", json::s("unbounded"))],
                        OptimizationResult::FiniteOptimum(y) => {
                            let mut v = vec![("res", json::s("opt"))];
                            v.extend(named(&back(data.reconstruct_solution(y))));
                            v
                        }
                    }
                });
                events.push(match r { Err(m) => fail("solve", &m), Ok(v) => ev("solve", v) });
            }
            events
        }
    };
}
take!(take_big, RationalBig);
take!(take_small, Rational64);

fn value(g: &mut Rng, style: usize) -> Q {
    match style {
        0 => (*g.pick(&[-1, 1]), 1),
        1 => { let v = g.int(1, 4); (if g.chance(50) { v } else { -v }, 1) }
        2 => (g.int(1, 5), 1),
        _ => { let v = g.int(1, 8); (if g.chance(60) { v } else { -v }, g.int(1, 4)) }
    }
}

/// A random problem. Roughly two thirds are feasible by construction.
pub fn random(g: &mut Rng, max_m: usize, max_n: usize) -> Gp {
    // some problems of which presolving leaves a part
    let dense = g.chance(35);
    let (m, n) = if dense { (2 + g.below(max_m - 1), 2 + g.below(max_n - 1)) } else { (g.below(max_m + 1), 1 + g.below(max_n)) };
    let style = g.below(4);
    let density = if dense { *g.pick(&[75, 90, 100]) } else { *g.pick(&[25u64, 50, 75, 100]) };
    let mut cols: Vec<Vec<Q>> = (0..n).map(|_| (0..m).map(|_| if g.chance(density) { value(g, style) } else { (0, 1) }).collect()).collect();
    // columns with one entry, rows with one entry
    for c in &mut cols {
        if m > 0 && g.chance(if dense { 8 } else { 20 }) {
            let k = g.below(m);
            for (i, v) in c.iter_mut().enumerate() { *v = if i == k { value(g, style) } else { (0, 1) }; }
        }
    }
    for i in 0..m {
        if g.chance(if dense { 4 } else { 15 }) {
            let k = g.below(n);
            for (j, c) in cols.iter_mut().enumerate() { c[i] = if j == k { value(g, style) } else { (0, 1) }; }
        }
    }
    let x: Vec<Q> = (0..n).map(|_| if g.chance(40) { (0, 1) } else { (g.int(-3, 4), if style == 3 { g.int(1, 2) } else { 1 }) }).collect();
    let bounds_style = g.below(4);
    let feasible = g.chance(70);
    let cost_zero = *g.pick(&[20u64, 50, 80]);
    let mut vars = vec![];
    for v in &x {
        let d1 = if g.chance(50) { 0 } else { g.int(1, 3) };
        let d2 = if g.chance(50) { 0 } else { g.int(1, 4) };
        let lower = Some((v.0 - d1 * v.1, v.1));
        let upper = Some((v.0 + d2 * v.1, v.1));
        let (lo, hi) = match (bounds_style, g.below(6)) {
            (0, _) => (Some((0, 1)), None),
            (1, 0..=3) => (Some((0, 1)), upper.filter(|u| u.0 >= 0)),
            (2, 0..=3) => (lower, upper),
            (_, 0) => (None, None),
            (_, 1) => (lower, None),
            (_, 2) => (None, upper),
            (_, 3) => (lower, upper),
            (_, 4) => (Some((0, 1)), None),
            _ => (lower, lower),
        };
        let cost = if g.chance(cost_zero) { (0, 1) } else { value(g, if style == 2 { 1 } else { style }) };
        vars.push((lo, hi, cost));
    }
    // the point that stays feasible
    let x: Vec<R> = (0..n).map(|j| {
        let v = big(x[j]);
        match (vars[j].0, vars[j].1) {
            (Some(l), _) if big(l) > v => big(l),
            (_, Some(u)) if big(u) < v => big(u),
            _ => v,
        }
    }).collect();
    let mut rels = vec![];
    let mut b = vec![];
    for i in 0..m {
        let at: R = cols.iter().zip(&x).map(|(c, v)| big(c[i]) * v).sum();
        let text = at.to_string();
        let (p, d) = text.split_once('/').unwrap_or((&text, "1"));
        let (p, d): Q = (p.parse().unwrap(), d.parse().unwrap());
        let off = |k: i64| (p + k * d, d);
        let slack = if g.chance(40) { 0 } else { g.int(1, 3) };
        let rel = match g.below(7) { 0 | 1 => Rel::Eq, 2 | 3 => Rel::Le, 4 | 5 => Rel::Ge, _ => Rel::Range((g.int(1, 4), 1)) };
        b.push(if !feasible && g.chance(50) { (g.int(-4, 6), 1) } else {
            match &rel {
                Rel::Eq => off(0),
                Rel::Le => off(slack),
                Rel::Ge => off(-slack),
                Rel::Range(r) => off(g.int(0, r.0)),
            }
        });
        rels.push(rel);
    }
    // repeated and dependent rows
    if m >= 2 && g.chance(15) {
        let (s, t) = (g.below(m), g.below(m));
        if s != t {
            for c in &mut cols { c[t] = (c[s].0 * 2, c[s].1); }
            if rels[s] == Rel::Eq && feasible { rels[t] = Rel::Eq; b[t] = (b[s].0 * 2, b[s].1); }
            else {
                rels[t] = rels[s].clone();
                b[t] = (b[s].0 * 2, b[s].1);
            }
        }
    }
    let mut names: Vec<String> = (0..n).map(|j| format!("V{}", if n <= 10 { (j * 7 + 3) % 10 } else { j + 10 })).collect();
    if g.chance(30) { names.reverse(); }
    Gp { max: g.chance(30), fixed: if g.chance(50) { (0, 1) } else { (g.int(-5, 9), g.int(1, 2)) }, rels, b, cols, vars, names }
}
