//! Matrix providers with explicit data: a stated standard form problem
//! `min cost . x, columns . x = rhs, x >= 0`.
use num_traits::{One, Zero};
use relp::algorithm::two_phase::matrix_provider::MatrixProvider;
use relp::algorithm::two_phase::matrix_provider::column::{Column, ColumnIterator, SparseSliceIterator};
use relp::algorithm::two_phase::matrix_provider::column::identity::Identity;
use relp::algorithm::two_phase::matrix_provider::filter::generic_wrapper::IntoFilteredColumn;
use relp::algorithm::two_phase::phase_one::{FullInitialBasis, PartialInitialBasis};
use relp::data::linear_algebra::traits::{SparseComparator, SparseElement};
use relp::data::linear_algebra::vector::{DenseVector, SparseVector, Vector};
use relp::data::linear_program::elements::BoundDirection;
use relp_num::{NonZero, RationalBig};

pub type R = RationalBig;

pub fn r(n: i64) -> R { R::from(n) }
pub fn q(n: i64, d: i64) -> R {
    debug_assert!(d > 0);
    R::from(n) / R::from(d)
}

#[derive(Debug, Clone, PartialEq)]
pub struct Col(pub Vec<(usize, R)>);

impl Column for Col {
    type F = R;
    type Iter<'a> = impl ColumnIterator<'a, F = R>;
    fn iter(&self) -> Self::Iter<'_> { SparseSliceIterator::new(&self.0) }
    fn index_to_string(&self, i: usize) -> String {
        self.0.iter().find(|t| t.0 == i).map_or("0".to_string(), |t| t.1.to_string())
    }
}
impl IntoIterator for Col {
    type Item = (usize, R);
    type IntoIter = std::vec::IntoIter<(usize, R)>;
    fn into_iter(self) -> Self::IntoIter { self.0.into_iter() }
}
impl Identity for Col {
    fn identity(i: usize, _len: usize) -> Self { Col(vec![(i, R::one())]) }
}
impl IntoFilteredColumn for Col {
    type Filtered = Col;
    fn into_filtered(self, to_remove: &[usize]) -> Col {
        Col(self.0.into_iter()
            .filter(|(i, _)| !to_remove.contains(i))
            .map(|(i, v)| (i - to_remove.iter().filter(|&&k| k < i).count(), v))
            .collect())
    }
}

/// The data of a standard form problem.
#[derive(Debug, Clone, PartialEq)]
pub struct Std {
    pub m: usize,
    /// Dense columns, each of length `m`.
    pub cols: Vec<Vec<R>>,
    pub cost: Vec<R>,
    pub rhs: Vec<R>,
    /// Offered initial pivots (row, column), if the representation offers any.
    pub pivots: Vec<(usize, usize)>,
}

impl Std {
    pub fn n(&self) -> usize { self.cols.len() }
    pub fn sparse(&self, j: usize) -> Col { to_col(&self.cols[j]) }
    /// Read any provider into explicit data.
    pub fn read<MP: MatrixProvider>(p: &MP) -> Self
    where
        for<'r> R: From<&'r <MP::Column as Column>::F>,
        R: for<'a> std::ops::Add<MP::Cost<'a>, Output = R>,
        R: From<MP::Rhs>,
    {
        let m = p.nr_rows();
        let cols = (0..p.nr_columns()).map(|j| dense(&p.column(j), m)).collect();
        let cost = (0..p.nr_columns()).map(|j| R::zero() + p.cost_value(j)).collect();
        let rhs = p.right_hand_side().into_iter().map(R::from).collect();
        Self { m, cols, cost, rhs, pivots: vec![] }
    }
}

/// Sparse entries as a dense vector.
pub fn dense_of(entries: impl Iterator<Item = (usize, R)>, m: usize) -> Vec<R> {
    let mut v = vec![R::zero(); m];
    for (i, x) in entries { v[i] += x; }
    v
}

pub fn dense<C: Column>(c: &C, m: usize) -> Vec<R>
where
    for<'r> R: From<&'r C::F>,
{
    let mut v = vec![R::zero(); m];
    for (i, x) in c.iter() {
        v[i] = R::from(x);
    }
    v
}

pub fn to_col(v: &[R]) -> Col {
    Col(v.iter().enumerate().filter(|(_, x)| x.is_not_zero()).map(|(i, x)| (i, x.clone())).collect())
}

macro_rules! provider {
    ($name:ident) => {
        #[derive(Debug, Clone, PartialEq)]
        pub struct $name(pub Std);
        impl MatrixProvider for $name {
            type Column = Col;
            type Cost<'a> = &'a R;
            type Rhs = R;
            fn column(&self, j: usize) -> Col { self.0.sparse(j) }
            fn cost_value(&self, j: usize) -> &R { &self.0.cost[j] }
            fn right_hand_side(&self) -> DenseVector<R> { DenseVector::new(self.0.rhs.clone(), self.0.m) }
            fn bound_row_index(&self, _j: usize, _d: BoundDirection) -> Option<usize> { None }
            fn nr_constraints(&self) -> usize { self.0.m }
            fn nr_variable_bounds(&self) -> usize { 0 }
            fn nr_columns(&self) -> usize { self.0.cols.len() }
            fn reconstruct_solution<G>(&self, v: SparseVector<G, G>) -> SparseVector<G, G>
            where
                G: SparseElement<G> + SparseComparator,
            { v }
        }
    };
}
provider!(Plain);
provider!(Partial);
provider!(Full);

impl PartialInitialBasis for Partial {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.0.pivots.clone() }
    fn nr_initial_elements(&self) -> usize { self.0.pivots.len() }
}
impl PartialInitialBasis for Full {
    fn pivot_element_indices(&self) -> Vec<(usize, usize)> { self.0.pivots.clone() }
    fn nr_initial_elements(&self) -> usize { self.0.pivots.len() }
}
impl FullInitialBasis for Full {}
