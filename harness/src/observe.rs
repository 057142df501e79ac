//! Everything a matrix provider presents.
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::data::linear_program::elements::BoundDirection;
use relp::data::linear_algebra::vector::{SparseVector, Vector};

use crate::json::{self, J};
use crate::prov::R;
use num_traits::Zero;

fn opt_index(i: Option<usize>) -> J { J::A(i.iter().map(|&i| J::I(i as i64)).collect()) }

pub fn entries<'a>(m: usize, it: impl Iterator<Item = (usize, R)>) -> J {
    let v: Vec<(usize, R)> = it.collect();
    J::O(vec![
        ("len", J::I(m as i64)),
        ("i", J::A(v.iter().map(|x| J::I(x.0 as i64)).collect())),
        ("v", J::A(v.iter().map(|x| json::rat(&x.1)).collect())),
    ])
}

/// The number a shown entry states; nothing the specification would accept if it is none.
fn shown(text: &str) -> J {
    let (n, d) = text.split_once('/').unwrap_or((text, "1"));
    match (n.trim().parse::<i64>(), d.trim().parse::<i64>()) {
        (Ok(n), Ok(d)) if d > 0 => json::rat(&crate::prov::q(n, d)),
        _ => json::rat(&crate::prov::q(-987_654_321, 1)),
    }
}

/// A column as it is shown, entry by entry.
pub fn texts<C: Column>(m: usize, c: &C) -> J { J::A((0..m).map(|i| shown(&c.index_to_string(i))).collect()) }

/// Observe a provider. `cost` reads the cost of a column.
pub fn provider<MP: MatrixProvider>(p: &MP, cost: impl Fn(usize) -> R, rhs: impl Fn(MP::Rhs) -> R, recon: Option<&[R]>) -> Vec<(&'static str, J)>
where
    for<'r> R: From<&'r <MP::Column as Column>::F>,
    R: From<<MP::Column as Column>::F>,
{
    let (m, n) = (p.nr_rows(), p.nr_columns());
    let mut v = vec![
        ("nr_rows", J::I(m as i64)),
        ("nr_columns", J::I(n as i64)),
        ("nr_constraints", J::I(p.nr_constraints() as i64)),
        ("nr_bounds", J::I(p.nr_variable_bounds() as i64)),
        ("cols", J::A((0..n).map(|j| entries(m, p.column(j).iter().map(|(i, x)| (i, R::from(x))))).collect())),
        ("into_cols", J::A((0..n).map(|j| entries(m, p.column(j).into_iter().map(|(i, x)| (i, R::from(x))))).collect())),
        ("texts", J::A((0..n).map(|j| texts(m, &p.column(j))).collect())),
        ("counted", J::A((0..n).map(|j| J::A(vec![
            J::I(p.column(j).iter().count() as i64),
            J::I(p.column(j).into_iter().count() as i64),
            J::I(p.column(j).iter().fold(0, |k, _| k + 1)),
            J::I(p.column(j).into_iter().fold(0, |k, _| k + 1)),
        ])).collect())),
        ("costs", J::A((0..n).map(|j| json::rat(&cost(j))).collect())),
        ("rhs", json::vec(&p.right_hand_side().into_iter().map(rhs).collect::<Vec<_>>())),
        ("low", J::A((0..n).map(|j| opt_index(p.bound_row_index(j, BoundDirection::Lower))).collect())),
        ("up", J::A((0..n).map(|j| opt_index(p.bound_row_index(j, BoundDirection::Upper))).collect())),
    ];
    if let Some(x) = recon {
        let tuples: Vec<(usize, R)> = x.iter().cloned().enumerate().filter(|(_, v)| !v.is_zero()).collect();
        let out: SparseVector<R, R> = p.reconstruct_solution(SparseVector::new(tuples, x.len()));
        v.push(("recon", json::sparse(&out)));
    }
    v
}

pub fn pivots(v: &[(usize, usize)]) -> J {
    J::A(v.iter().map(|&(i, j)| J::A(vec![J::I(i as i64), J::I(j as i64)])).collect())
}
