//! Vectors and matrices under histories of operations.
//! Modes: `replay` (plan of the specification), `vectors <count>`, `matrices <count>`.
use std::collections::HashSet;

use harness::json::{self, J, Out};
use harness::prov::{R, q, r};
use harness::rng::Rng;
use harness::run;
use num_traits::Zero;
use relp::algorithm::two_phase::matrix_provider::column::{Column, SparseSliceIterator};
use relp::data::linear_algebra::matrix::{ColumnMajor, MatrixOrder, RowMajor, SparseMatrix};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp_num::{NonZero, Rational64};

#[derive(Clone, Debug)]
struct Op { op: &'static str, i: Vec<usize>, x: Vec<R>, o: Vec<R>, oo: Vec<Vec<R>> }

fn op(op: &'static str) -> Op { Op { op, i: vec![], x: vec![], o: vec![], oo: vec![] } }
impl Op {
    fn i(mut self, i: &[usize]) -> Self { self.i = i.to_vec(); self }
    fn x(mut self, x: R) -> Self { self.x = vec![x]; self }
    fn o(mut self, o: Vec<R>) -> Self { self.o = o; self }
    fn oo(mut self, oo: Vec<Vec<R>>) -> Self { self.oo = oo; self }
    fn json(&self) -> Vec<(&'static str, J)> {
        let o = if self.oo.is_empty() { json::vec(&self.o) } else { json::mat(&self.oo) };
        vec![("op", json::s(self.op)), ("i", json::ints(&self.i)), ("x", json::vec(&self.x)), ("o", o)]
    }
}

fn small(x: &R) -> Rational64 {
    let s = x.to_string();
    let (n, d) = s.split_once('/').unwrap_or((&s, "1"));
    Rational64::from((n.parse::<i64>().unwrap(), d.parse::<i64>().unwrap()))
}
fn tuples(v: &[R]) -> Vec<(usize, R)> {
    v.iter().enumerate().filter(|(_, x)| x.is_not_zero()).map(|(i, x)| (i, x.clone())).collect()
}
fn sparse(v: &[R]) -> SparseVector<R, R> { SparseVector::new(tuples(v), v.len()) }
fn answer(v: Option<R>) -> J { J::A(v.iter().map(|x| json::rat(x)).collect()) }

fn see_sparse(v: &SparseVector<R, R>) -> Vec<(&'static str, J)> {
    let n = Vector::len(v);
    vec![
        ("sv", json::sparse(v)),
        ("len", J::I(n as i64)),
        ("empty", J::B(Vector::is_empty(v))),
        ("size", J::I(v.size() as i64)),
        ("get", J::A((0..n).map(|i| json::opt(&Vector::get(v, i).cloned())).collect())),
        ("shown", shown(&v.to_string())),
        ("entry", J::A((0..n).map(|i| json::rat(&v.index_to_string(i))).collect())),
    ]
}
/// The entries of a printed sparse vector; a single entry with index -1 if it has another form.
fn shown(text: &str) -> J {
    fn entries(text: &str) -> Option<Vec<(i64, &str)>> {
        let inner = text.trim_end().strip_prefix('[')?.strip_suffix(']')?;
        if inner.is_empty() { return Some(vec![]); }
        inner.split(", ").map(|e| {
            let (i, v) = e.strip_prefix('(')?.strip_suffix(')')?.split_once(' ')?;
            if v.contains(['(', ')', ' ']) { return None; }
            Some((i.parse().ok()?, v))
        }).collect()
    }
    let entries = entries(text).unwrap_or(vec![(-1, "0")]);
    J::O(vec![
        ("i", J::A(entries.iter().map(|e| J::I(e.0)).collect())),
        ("v", J::A(entries.iter().map(|e| json::rat(&e.1)).collect())),
    ])
}
fn see_dense(v: &DenseVector<R>) -> Vec<(&'static str, J)> {
    let n = Vector::len(v);
    vec![
        ("sv", json::vec(&Vector::iter(v).cloned().collect::<Vec<_>>())),
        ("len", J::I(n as i64)),
        ("empty", J::B(Vector::is_empty(v))),
        ("size", J::I(v.size() as i64)),
        ("get", J::A((0..n).map(|i| json::opt(&Vector::get(v, i).cloned())).collect())),
        ("shown", J::A(v.to_string().lines().filter(|l| !l.is_empty()).map(|l| json::rat(&l)).collect())),
    ]
}

fn apply_sparse(v: &mut SparseVector<R, R>, o: &Op) -> Option<R> {
    match o.op {
        "push" => v.push_value(o.x[0].clone()),
        "set" => v.set(o.i[0], o.x[0].clone()),
        "remove" => v.remove_indices(&o.i),
        "add" => v.add_multiple_of_row(&o.x[0], &sparse(&o.o)),
        "shift" => v.shift_value(o.i[0], o.x[0].clone()),
        // the operand in another type
        "shiftm" => v.shift_value(o.i[0], small(&o.x[0])),
        "mul" => v.element_wise_multiply(&o.x[0]),
        "div" => v.element_wise_divide(&o.x[0]),
        "extend" => v.extend(o.i[0]),
        "iter" => *v = o.o.iter().cloned().collect(),
        "basis" => *v = SparseVector::standard_basis_vector(o.i[0], o.i[1]),
        "dot" => { let t = tuples(&o.o); return Some(v.sparse_inner_product(SparseSliceIterator::new(&t))); }
        "dotd" => { let d = DenseVector::new(o.o.clone(), o.o.len()); return Some(v.inner_product_with_dense::<R, R>(&d)); }
        "norm" => return Some(v.squared_norm()),
        _ => {}
    }
    None
}
fn apply_dense(v: &mut DenseVector<R>, o: &Op) -> Option<R> {
    match o.op {
        "push" => v.push_value(o.x[0].clone()),
        "set" => v.set(o.i[0], o.x[0].clone()),
        "remove" => v.remove_indices(&o.i),
        "extendv" => v.extend_with_values(o.o.clone()),
        "iter" => *v = o.o.iter().cloned().collect(),
        "constant" => *v = DenseVector::constant(o.x[0].clone(), o.i[0]),
        "dot" => { let t = tuples(&o.o); return Some(v.sparse_inner_product(SparseSliceIterator::new(&t))); }
        _ => {}
    }
    None
}

fn value(g: &mut Rng) -> R { match g.below(4) { 0 => r(g.int(-1, 1)), 1 => r(g.int(-5, 5)), 2 => q(g.int(-7, 7), g.int(1, 6)), _ => q(g.int(-1_000_000, 1_000_000), g.int(1, 1_000_000)) } }
fn nonzero(g: &mut Rng) -> R { loop { let v = value(g); if v.is_not_zero() { return v; } } }
fn values(g: &mut Rng, n: usize) -> Vec<R> {
    let d = *g.pick(&[0u64, 20, 50, 80, 100]);
    (0..n).map(|_| if g.chance(d) { value(g) } else { R::zero() }).collect()
}
fn indices(g: &mut Rng, n: usize, all: bool) -> Vec<usize> {
    let d = *g.pick(&[0u64, 20, 50, 90, 100]);
    let mut v: Vec<usize> = (0..n).filter(|_| g.chance(d)).collect();
    if !all && v.len() == n { let k = g.below(n); v.remove(k); }
    v
}

/// The next operation on a sparse vector that now is `v`.
fn sparse_op(g: &mut Rng, v: &[R]) -> Op {
    let n = v.len();
    match g.below(14) {
        0 => op("push").x(nonzero(g)),
        1 => op("set").i(&[g.below(n)]).x(nonzero(g)),
        2 => op("remove").i(&indices(g, n, false)),
        3 => { let o = values(g, n); op("add").x(nonzero(g)).o(o) }
        // cancel entries
        4 => { let f = nonzero(g); let o = v.iter().map(|x| if g.chance(60) { -(x / &f) } else { R::zero() }).collect(); op("add").x(f).o(o) }
        5 => op(if g.chance(50) { "shift" } else { "shiftm" }).i(&[g.below(n)]).x(value(g)),
        6 if g.chance(40) => {
            // cancel, or double, in another type
            let i = g.below(n);
            let w = if g.chance(70) { -v[i].clone() } else { v[i].clone() };
            if w.to_string().len() > 15 { op("new") } else { op("shiftm").i(&[i]).x(w) }
        }
        6 => { let i = g.below(n); op("shift").i(&[i]).x(-v[i].clone()) }
        7 => op("mul").x(nonzero(g)),
        8 => op("div").x(nonzero(g)),
        9 => op("extend").i(&[g.below(4)]),
        10 => { let k = 1 + g.below(9); op("dot").o(values(g, k)) }
        11 => op("dotd").o(values(g, n)),
        12 => op("norm"),
        _ => if g.chance(60) { op("new") } else if g.chance(50) { let k = 1 + g.below(8); op("iter").o(values(g, k)) } else { let k = 1 + g.below(8); op("basis").i(&[g.below(k), k]) },
    }
}
fn dense_op(g: &mut Rng, n: usize) -> Op {
    match g.below(8) {
        0 => op("push").x(value(g)),
        1 | 2 => op("set").i(&[g.below(n)]).x(value(g)),
        3 => op("remove").i(&indices(g, n, false)),
        4 => { let k = g.below(4); op("extendv").o(values(g, k)) }
        5 => { let k = n; op("dot").o(values(g, k)) }
        6 => op("constant").i(&[1 + g.below(5)]).x(value(g)),
        _ => { let k = 1 + g.below(8); op("iter").o(values(g, k)) }
    }
}

enum M { Row(SparseMatrix<R, R, RowMajor>), Col(SparseMatrix<R, R, ColumnMajor>) }

fn make(rows: &[Vec<R>], nc: usize, by_row: bool) -> M {
    let nr = rows.len();
    if by_row { M::Row(RowMajor::new(rows.iter().map(|v| tuples(v)).collect(), nr, nc)) }
    else { M::Col(ColumnMajor::new((0..nc).map(|j| tuples(&rows.iter().map(|v| v[j].clone()).collect::<Vec<_>>())).collect(), nr, nc)) }
}
fn owned(data: &[Vec<(usize, &R)>]) -> Vec<Vec<(usize, R)>> {
    data.iter().map(|v| v.iter().map(|&(i, x)| (i, x.clone())).collect()).collect()
}
fn majors<'a>(len: usize, it: impl Iterator<Item = Vec<(usize, &'a R)>>) -> J {
    J::A(it.map(|v| J::O(vec![
        ("len", J::I(len as i64)),
        ("i", J::A(v.iter().map(|x| J::I(x.0 as i64)).collect())),
        ("v", J::A(v.iter().map(|x| json::rat(x.1)).collect())),
    ])).collect())
}
fn see_matrix(m: &M) -> Vec<(&'static str, J)> {
    match m {
        M::Row(m) => vec![
            ("ori", json::s("row")),
            ("nr", J::I(m.nr_rows() as i64)), ("nc", J::I(m.nr_columns() as i64)), ("size", J::I(m.size() as i64)),
            ("major", majors(m.nr_columns(), m.iter_rows().map(|v| v.iter().map(|(i, x)| (*i, x)).collect()))),
            ("single", majors(m.nr_columns(), (0..m.nr_rows()).map(|i| m.iter_row(i).map(|(i, x)| (*i, x)).collect()))),
        ],
        M::Col(m) => vec![
            ("ori", json::s("col")),
            ("nr", J::I(m.nr_rows() as i64)), ("nc", J::I(m.nr_columns() as i64)), ("size", J::I(m.size() as i64)),
            ("major", majors(m.nr_rows(), m.iter_columns().map(|v| v.iter().map(|(i, x)| (*i, x)).collect()))),
            ("single", majors(m.nr_rows(), (0..m.nr_columns()).map(|j| m.iter_column(j).map(|(i, x)| (*i, x)).collect()))),
        ],
    }
}
fn integers(rows: &[Vec<R>]) -> Vec<Vec<i64>> { rows.iter().map(|v| v.iter().map(|x| x.to_string().parse().unwrap()).collect()).collect() }
fn apply_matrix(m: M, o: &Op, nc: usize) -> M {
    match (o.op, m) {
        ("setm", M::Row(mut m)) => { m.set_value(o.i[0], o.i[1], o.x[0].clone()); M::Row(m) }
        ("setm", M::Col(mut m)) => { m.set_value(o.i[0], o.i[1], o.x[0].clone()); M::Col(m) }
        ("rmrows", M::Row(mut m)) => { m.remove_rows(&o.i); M::Row(m) }
        ("rmrows", M::Col(mut m)) => { m.remove_rows_although_this_matrix_is_column_major(&o.i); M::Col(m) }
        ("rmcols", M::Row(mut m)) => { m.remove_columns_although_this_matrix_is_row_ordered(&o.i); M::Row(m) }
        ("rmcols", M::Col(mut m)) => { m.remove_columns(&o.i); M::Col(m) }
        ("below", M::Row(m)) => match make(&o.oo, nc, true) { M::Row(b) => M::Row(m.concatenate_vertically(b)), _ => unreachable!() },
        ("beside", M::Col(m)) => match make(&o.oo, o.i[0], false) { M::Col(b) => M::Col(m.concatenate_horizontally(b)), _ => unreachable!() },
        ("signs", M::Col(mut m)) => { m.change_row_signs(&o.i.iter().copied().collect::<HashSet<_>>()); M::Col(m) }
        ("data", M::Row(_)) => M::Row(RowMajor::from_test_data(&integers(&o.oo), o.i[0])),
        ("data", M::Col(_)) => M::Col(ColumnMajor::from_test_data(&integers(&o.oo), o.i[0])),
        ("identity", M::Row(_)) => M::Row(RowMajor::identity(o.i[0])),
        ("identity", M::Col(_)) => M::Col(ColumnMajor::identity(o.i[0])),
        ("flip", M::Col(m)) => { let t = SparseMatrix::from_column_major(&m); M::Row(RowMajor::new(owned(&t.data), t.nr_rows(), t.nr_columns())) }
        ("flip", M::Row(m)) => {
            let t = SparseMatrix::<R, R, ColumnMajor>::from_row_ordered_tuples_although_this_is_expensive(&m.data, m.nr_columns());
            M::Col(ColumnMajor::new(owned(&t.data), t.nr_rows(), t.nr_columns()))
        }
        (_, m) => m,
    }
}
fn matrix_op(g: &mut Rng, nr: usize, nc: usize, by_row: bool) -> Op {
    match g.below(12) {
        0 | 1 | 2 if nr > 0 && nc > 0 => op("setm").i(&[g.below(nr), g.below(nc)]).x(nonzero(g)),
        3 => op("rmrows").i(&indices(g, nr, true)),
        4 => op("rmcols").i(&indices(g, nc, true)),
        5 | 6 if by_row => { let k = g.below(4); op("below").oo((0..k).map(|_| values(g, nc)).collect()) }
        5 | 6 => { let k = g.below(4); op("beside").i(&[k]).oo((0..nr).map(|_| values(g, k)).collect()) }
        7 | 8 if !by_row => op("signs").i(&indices(g, nr, true)),
        9 if g.chance(30) => {
            let (nr, nc) = (1 + g.below(5), 1 + g.below(5));
            op("data").i(&[nc]).oo((0..nr).map(|_| (0..nc).map(|_| if g.chance(50) { r(g.int(-9, 9)) } else { r(0) }).collect()).collect())
        }
        9 if g.chance(20) => op("identity").i(&[1 + g.below(4)]),
        10 | 11 => op("flip"),
        _ => op("new"),
    }
}

fn main() {
    let a = run::args();
    let mut out = Out::new(&a.out);
    let mut id = 0;
    let mut emit = |kind: &str, nr: usize, nc: usize, start: J, plan: J, f: &mut dyn FnMut(&mut Vec<J>)| {
        id += 1;
        let mut line = vec![("id", J::I(id)), ("kind", json::s(kind)), ("nr", J::I(nr as i64)), ("nc", J::I(nc as i64)), ("start", start), ("plan", plan)];
        let d = J::O(line.clone()).text();
        let mut ev = vec![];
        let res = run::guarded(|| d, || f(&mut ev));
        line.push(("events", J::A(ev)));
        line.push(("result", match res { Ok(()) => J::O(vec![("st", json::s("ok")), ("msg", json::s(""))]), Err(m) => run::panicked(&m) }));
        out.line(&J::O(line));
    };
    let vector_step = |v: &mut SparseVector<R, R>, o: &Op| {
        let ans = apply_sparse(v, o);
        let mut e = o.json();
        e.push(("ans", answer(ans)));
        e.extend(see_sparse(v));
        J::O(e)
    };
    match a.rest[0].as_str() {
        "replay" => {
            let text = std::fs::read_to_string(a.out.replace(".ndjson", ".plan")).expect("plan");
            for line in text.lines() {
                let p = json::parse(line);
                let nums = |j: &J| j.items().iter().map(|x| r(x.int())).collect::<Vec<_>>();
                let start = nums(p.get("start"));
                let po = p.get("op");
                let names = ["push", "extend", "norm", "new", "set", "shift", "remove", "add", "mul", "div", "dot", "dotd"];
                let o = Op {
                    op: names.iter().copied().find(|n| *n == po.get("op").str()).expect("operation"),
                    i: po.get("i").items().iter().map(|x| x.int() as usize).collect(),
                    x: nums(po.get("x")), o: nums(po.get("o")), oo: vec![],
                };
                emit("sparse", 0, 0, json::vec(&start), json::s(line), &mut |ev| {
                    let mut v = sparse(&start);
                    ev.push(vector_step(&mut v, &o));
                });
            }
        }
        "vectors" => {
            let count: usize = a.rest[1].parse().unwrap();
            let mut g = Rng::new(a.seed ^ 0x5e);
            for k in 0..count {
                let n = if k % 40 == 7 { 11 + g.below(60) } else { 1 + g.below(10) };
                let start = values(&mut g, n);
                let steps = 3 + g.below(if k % 10 == 0 { 40 } else { 12 });
                if k % 3 == 0 {
                    emit("dense", 0, 0, json::vec(&start), J::I(k as i64), &mut |ev| {
                        let mut v = DenseVector::new(start.clone(), start.len());
                        for _ in 0..steps {
                            let o = dense_op(&mut g, Vector::len(&v));
                            let ans = apply_dense(&mut v, &o);
                            let mut e = o.json();
                            e.push(("ans", answer(ans)));
                            e.extend(see_dense(&v));
                            ev.push(J::O(e));
                        }
                    });
                } else {
                    emit("sparse", 0, 0, json::vec(&start), J::I(k as i64), &mut |ev| {
                        let mut v = sparse(&start);
                        for _ in 0..steps {
                            let n = Vector::len(&v);
                            let now: Vec<R> = (0..n).map(|i| Vector::get(&v, i).cloned().unwrap_or_else(R::zero)).collect();
                            let o = sparse_op(&mut g, &now);
                            ev.push(vector_step(&mut v, &o));
                        }
                    });
                }
            }
        }
        _ => {
            let count: usize = a.rest[1].parse().unwrap();
            let mut g = Rng::new(a.seed ^ 0x5f);
            for k in 0..count {
                let most = if k % 40 == 7 { 14 } else { 5 };
                let (nr, nc) = (1 + g.below(most), 1 + g.below(most));
                let start: Vec<Vec<R>> = (0..nr).map(|_| values(&mut g, nc)).collect();
                let by_row = g.chance(50);
                let steps = 2 + g.below(10);
                emit("mat", nr, nc, json::mat(&start), J::I(k as i64), &mut |ev| {
                    let mut m = make(&start, nc, by_row);
                    let mut o = op("new");
                    for _ in 0..steps {
                        let nc = match &m { M::Row(m) => m.nr_columns(), M::Col(m) => m.nr_columns() };
                        m = apply_matrix(m, &o, nc);
                        let mut e = o.json();
                        e.extend(see_matrix(&m));
                        ev.push(J::O(e));
                        let (nr, nc, by) = match &m { M::Row(m) => (m.nr_rows(), m.nr_columns(), true), M::Col(m) => (m.nr_rows(), m.nr_columns(), false) };
                        o = matrix_op(&mut g, nr, nc, by);
                    }
                });
            }
        }
    }
    out.finish();
}
