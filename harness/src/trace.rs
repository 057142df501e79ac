//! An inverse maintainer that records what the solver does with it.
//!
//! `Tracing<IM>` forwards every call of the public `InverseMaintainer` trait and, after each call
//! that changes the state, logs the projected state: the basis by row, the basis inverse, the
//! multipliers, the constraint values and the objective value.
use std::cell::RefCell;
use std::fmt;

use num_traits::{One, Zero};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnNumber};
use relp::algorithm::two_phase::matrix_provider::filter::Filtered;
use relp::algorithm::two_phase::tableau::BasisChangeComputationInfo;
use relp::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer, ops};
use relp::algorithm::two_phase::tableau::kind::Kind;
use relp::data::linear_algebra::traits::Element;
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};

use crate::json::{self, J};
use crate::prov::{Col, R};

thread_local! {
    /// Only count events.
    static LIGHT: RefCell<Option<usize>> = const { RefCell::new(None) };
    static LOG: RefCell<Option<Vec<J>>> = const { RefCell::new(None) };
    /// Log the basis inverse only every so many events when bases are large.
    static CAP: RefCell<usize> = const { RefCell::new(2000) };
}

pub const CAP_PANIC: &str = "harness: pivot cap reached";

pub fn start(cap: usize) {
    LOG.with(|l| *l.borrow_mut() = Some(Vec::new()));
    CAP.with(|c| *c.borrow_mut() = cap);
}
pub fn start_light(cap: usize) {
    LIGHT.with(|l| *l.borrow_mut() = Some(0));
    CAP.with(|c| *c.borrow_mut() = cap);
}
pub fn finish() -> Vec<J> {
    LIGHT.with(|l| l.borrow_mut().take());
    LOG.with(|l| l.borrow_mut().take().unwrap_or_default())
}
pub fn log(j: J) {
    let n = LOG.with(|l| match l.borrow_mut().as_mut() {
        Some(v) => { v.push(j); v.len() }
        None => 0,
    });
    if n > CAP.with(|c| *c.borrow()) {
        panic!("{}", CAP_PANIC);
    }
}

pub struct Tracing<IM> {
    pub inner: IM,
}

impl<IM: fmt::Display> fmt::Display for Tracing<IM> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.inner.fmt(f) }
}

pub fn unpack(v: &SparseVector<R, R>) -> Vec<R> {
    let n = Vector::len(v);
    let mut out = vec![R::zero(); n];
    for (i, x) in v.iter() {
        out[i] = x.clone();
    }
    out
}

/// The projected state of an inverse maintainer.
pub fn state<IM: InverseMaintainer<F = R>>(im: &IM) -> Vec<(&'static str, J)> {
    let m = im.b().len();
    let unit = |i: usize| Col(vec![(i, R::one())]);
    let binv_cols: Vec<Vec<R>> = (0..m).map(|i| unpack(im.generate_column(unit(i)).column())).collect();
    vec![
        ("basis", J::A((0..m).map(|i| J::I(im.basis_column_index_for_row(i) as i64)).collect())),
        ("b", J::A(im.b().iter().map(|v| json::rat(v)).collect())),
        // minus pi
        ("mpi", J::A((0..m).map(|i| json::rat(&im.cost_difference(&unit(i)))).collect())),
        ("obj", json::rat(&im.get_objective_function_value())),
        ("binv", json::mat(&binv_cols)),
    ]
}

fn event<IM: InverseMaintainer<F = R>>(name: &'static str, mut extra: Vec<(&'static str, J)>, im: &IM) {
    let light = LIGHT.with(|l| l.borrow_mut().as_mut().map(|n| { *n += 1; *n }));
    if let Some(n) = light {
        if n > CAP.with(|c| *c.borrow()) {
            panic!("{}", CAP_PANIC);
        }
        return;
    }
    let mut v = vec![("ev", json::s(name))];
    v.append(&mut extra);
    v.append(&mut state(im));
    log(J::O(v));
}

impl<IM: InverseMaintainer<F = R>> InverseMaintainer for Tracing<IM> {
    type F = R;
    type ColumnComputationInfo = IM::ColumnComputationInfo;

    fn create_for_fully_artificial<Rhs: Element>(rhs: DenseVector<Rhs>) -> Self
    where
        Self::F: ops::Rhs<Rhs>,
    {
        let m = rhs.len();
        let inner = IM::create_for_fully_artificial(rhs);
        event("init", vec![
            ("kind", json::s("fully")),
            ("art", json::ints(&(0..m).collect::<Vec<_>>())),
        ], &inner);
        Self { inner }
    }

    fn create_for_partially_artificial<G: Element>(
        artificial: &[usize],
        basis: &[(usize, usize)],
        b: DenseVector<G>,
        basis_indices: Vec<usize>,
    ) -> Self
    where
        Self::F: ops::Rhs<G>,
    {
        let inner = IM::create_for_partially_artificial(artificial, basis, b, basis_indices);
        event("init", vec![
            ("kind", json::s("partially")),
            ("art", json::ints(artificial)),
        ], &inner);
        Self { inner }
    }

    fn from_basis<'a, MP: MatrixProvider>(basis: &[usize], provider: &'a MP) -> Self
    where
        Self::F:
            ops::Column<<MP::Column as Column>::F> +
            ops::Rhs<MP::Rhs> +
            ops::Cost<MP::Cost<'a>> +
            ops::Column<MP::Rhs> +
        ,
        MP::Rhs: 'static,
    {
        let inner = IM::from_basis(basis, provider);
        event("init", vec![("kind", json::s("basis")), ("art", J::A(vec![]))], &inner);
        Self { inner }
    }

    fn from_basis_pivots<'a, MP: MatrixProvider>(basis: &[(usize, usize)], provider: &'a MP) -> Self
    where
        Self::F:
            ops::Column<<MP::Column as Column>::F> +
            ops::Rhs<MP::Rhs> +
            ops::Cost<MP::Cost<'a>> +
            ops::Column<MP::Rhs> +
        ,
        MP::Rhs: 'static + ColumnNumber,
    {
        let inner = IM::from_basis_pivots(basis, provider);
        event("init", vec![("kind", json::s("basis")), ("art", J::A(vec![]))], &inner);
        Self { inner }
    }

    fn from_artificial<'provider, MP: MatrixProvider>(
        artificial: Self,
        provider: &'provider MP,
        nr_artificial: usize,
    ) -> Self
    where
        Self::F: ops::FieldHR + ops::Column<<MP::Column as Column>::F> + ops::Cost<MP::Cost<'provider>>,
    {
        let inner = IM::from_artificial(artificial.inner, provider, nr_artificial);
        event("switch", vec![("removed", J::A(vec![])), ("nart", J::I(nr_artificial as i64))], &inner);
        Self { inner }
    }

    fn from_artificial_remove_rows<'a, MP: Filtered>(
        artificial: Self,
        rows_removed: &'a MP,
        nr_artificial: usize,
    ) -> Self
    where
        Self::F: ops::Column<<<MP as MatrixProvider>::Column as Column>::F> + ops::Cost<MP::Cost<'a>>,
    {
        let rows = json::ints(rows_removed.filtered_rows());
        let inner = IM::from_artificial_remove_rows(artificial.inner, rows_removed, nr_artificial);
        event("switch", vec![("removed", rows), ("nart", J::I(nr_artificial as i64))], &inner);
        Self { inner }
    }

    fn change_basis<K: Kind>(
        &mut self,
        pivot_row_index: usize,
        pivot_column_index: usize,
        column: Self::ColumnComputationInfo,
        cost: Self::F,
        kind: &K,
    ) -> BasisChangeComputationInfo<Self::F>
    where
        Self::F: ops::Column<<<K as Kind>::Column as Column>::F>,
    {
        let logged_column = json::vec(&unpack(column.column()));
        let logged_cost = json::rat(&cost);
        let info = self.inner.change_basis(pivot_row_index, pivot_column_index, column, cost, kind);
        event("pivot", vec![
            ("row", J::I(pivot_row_index as i64)),
            ("col", J::I(pivot_column_index as i64)),
            ("column", logged_column),
            ("cost", logged_cost),
            ("irow", J::I(info.pivot_row_index as i64)),
            ("icol", J::I(info.pivot_column_index as i64)),
            ("leaving", J::I(info.leaving_column_index as i64)),
            ("before", json::vec(&unpack(&info.column_before_change))),
            ("work", json::vec(&unpack(&info.work_vector))),
            ("invrow", json::vec(&unpack(&info.basis_inverse_row))),
        ], &self.inner);
        info
    }

    fn cost_difference<C: Column>(&self, original_column: &C) -> Self::F
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.cost_difference(original_column)
    }

    fn generate_column<C: Column>(&self, original_column: C) -> Self::ColumnComputationInfo
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.generate_column(original_column)
    }

    fn generate_element<C: Column>(&self, i: usize, original_column: C) -> Option<Self::F>
    where
        Self::F: ops::Column<C::F>,
    {
        self.inner.generate_element(i, original_column)
    }

    fn current_bfs(&self) -> Vec<(usize, R)> { self.inner.current_bfs() }
    fn basis_column_index_for_row(&self, row: usize) -> usize { self.inner.basis_column_index_for_row(row) }
    fn b(&self) -> DenseVector<Self::F> { self.inner.b() }
    fn get_objective_function_value(&self) -> Self::F { self.inner.get_objective_function_value() }
    fn get_constraint_value(&self, i: usize) -> &Self::F { self.inner.get_constraint_value(i) }
}
