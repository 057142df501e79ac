From 96bba67fef5facecbc1a5f01952ba41999fc39e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:24 +0000
Subject: [PATCH 01/30] fix: factorise and update bases with fewer than two
 rows

---
 .../carry/lower_upper/decomposition/mod.rs           |  8 +++-----
 .../inverse_maintenance/carry/lower_upper/mod.rs     | 12 ++++++++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
index 27abed3..2f0a37b 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs
@@ -29,14 +29,13 @@ where
 
         // The number of columns gets smaller over time.
         let m = rows.len();
-        debug_assert!(m > 1);
 
         // These values will be returned.
         // They stay the same size, although nothing will be changed in the last indices once they
         // have been processed.
         let mut row_permutation = (0..m).collect::<Vec<_>>();
         let mut column_permutation = (0..m).collect::<Vec<_>>();
-        let mut lower_triangular_row_major = vec![Vec::new(); m - 1];
+        let mut lower_triangular_row_major = vec![Vec::new(); m.saturating_sub(1)];
 
         // These values get smaller over time.
         let (mut nnz_row, mut nnz_column) = count_non_zeros(&rows);
@@ -106,7 +105,7 @@ where
         }
 
         // We collected row-major but need column major, so transpose
-        let mut upper_triangular = vec![Vec::new(); m - 1];
+        let mut upper_triangular = vec![Vec::new(); m.saturating_sub(1)];
         let mut upper_diagonal = Vec::with_capacity(m);
         for (i, row) in rows.into_iter().enumerate() {
             let mut iter = row.into_iter();
@@ -117,7 +116,7 @@ where
                 upper_triangular[j - 1].push((i, value));
             }
         }
-        let mut lower_triangular = vec![Vec::new(); m - 1];
+        let mut lower_triangular = vec![Vec::new(); m.saturating_sub(1)];
         for (i, row) in lower_triangular_row_major.into_iter().enumerate()
             // We collected starting at row 1, but the lowest row index was 1.
             .map(|(i, v)| (i + 1, v)) {
@@ -277,7 +276,6 @@ fn swap<T>(
 /// Requires iterating over all values once.
 fn count_non_zeros<T>(rows: &[Vec<(usize, T)>]) -> (Vec<usize>, Vec<usize>) {
     let n = rows.len();
-    debug_assert!(n > 0);
     debug_assert!(rows.iter().all(|row| row.iter().all(|&(i, _)| i < n)));
 
     let nnz_row = rows.iter()
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
index 6ac98e0..59677e6 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs
@@ -68,8 +68,8 @@ where
         Self {
             row_permutation: FullPermutation::identity(m),
             column_permutation: FullPermutation::identity(m),
-            lower_triangular: vec![vec![]; m - 1],
-            upper_triangular: vec![vec![]; m - 1],
+            lower_triangular: vec![vec![]; m.saturating_sub(1)],
+            upper_triangular: vec![vec![]; m.saturating_sub(1)],
             upper_diagonal: vec![F::one(); m],
             updates: vec![],
         }
@@ -98,6 +98,14 @@ where
     ) -> SparseVector<Self::F, Self::F> {
         let m = self.m();
 
+        if m == 1 {
+            // There is only the diagonal, the new column replaces it entirely.
+            let Self::ColumnComputationInfo { column, mut spike } = column;
+            let (_, value) = spike.pop().unwrap();
+            self.upper_diagonal[0] = value;
+            return column;
+        }
+
         let pivot_column_index = {
             // Column with a pivot in `pivot_row_index` is leaving
             let mut pivot_column_index = pivot_row_index;
-- 
2.43.0


From d358c027fc2108ef4bdc4c30496c8b11043190a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 02/30] fix: let the pivot rule with memory reconsider its last
 selection

---
 src/algorithm/two_phase/strategy/pivot_rule.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/two_phase/strategy/pivot_rule.rs b/src/algorithm/two_phase/strategy/pivot_rule.rs
index 77a8527..d9f58f4 100644
--- a/src/algorithm/two_phase/strategy/pivot_rule.rs
+++ b/src/algorithm/two_phase/strategy/pivot_rule.rs
@@ -140,7 +140,7 @@ where
                 || find(tableau.start_index()..tableau.nr_columns()),
                 |last| {
                     find((last + 1)..tableau.nr_columns())
-                        .or_else(|| find(tableau.start_index()..last))
+                        .or_else(|| find(tableau.start_index()..(last + 1)))
                 },
             );
 
-- 
2.43.0


From 60a442f19384b26592a907e896e66943ed509ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:04 +0000
Subject: [PATCH 03/30] fix: use Bland's rule when the objective stalls, so
 that solving ends

---
 src/algorithm/two_phase/phase_one.rs | 18 ++++++++++++++++--
 src/algorithm/two_phase/phase_two.rs | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/two_phase/phase_one.rs b/src/algorithm/two_phase/phase_one.rs
index 62b19e0..eef4dbd 100644
--- a/src/algorithm/two_phase/phase_one.rs
+++ b/src/algorithm/two_phase/phase_one.rs
@@ -7,7 +7,7 @@ use relp_num::{NonZero, Signed};
 use crate::algorithm::two_phase::matrix_provider::column::Column;
 use crate::algorithm::two_phase::matrix_provider::column::identity::Identity;
 use crate::algorithm::two_phase::matrix_provider::MatrixProvider;
-use crate::algorithm::two_phase::strategy::pivot_rule::{PivotRule, SteepestDescentAlongObjective};
+use crate::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, PivotRule, SteepestDescentAlongObjective};
 use crate::algorithm::two_phase::tableau::{debug_assert_in_basic_feasible_solution_state, Tableau};
 use crate::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer, ops as im_ops};
 use crate::algorithm::two_phase::tableau::kind::artificial::Artificial;
@@ -130,6 +130,9 @@ where
     PR: PivotRule<IM::F>,
 {
     let mut rule = PR::new(&tableau);
+    // Number of basis changes since the objective last improved. When there are many, `rule` might be
+    // cycling, and Bland's rule is used until the objective improves.
+    let mut nr_stalled = 0;
 
     loop {
         debug_assert!({
@@ -137,16 +140,27 @@ where
             true
         });
 
-        match rule.select_primal_pivot_column(&tableau) {
+        let selected = if nr_stalled > tableau.nr_rows() + tableau.nr_columns() {
+            FirstProfitable.select_primal_pivot_column(&tableau)
+        } else {
+            rule.select_primal_pivot_column(&tableau)
+        };
+        match selected {
             Some((pivot_column_index, cost)) => {
                 let column_with_info = tableau.generate_column(pivot_column_index);
                 match tableau.select_primal_pivot_row(column_with_info.column()) {
                     Some(pivot_row_index) => {
+                        let objective = tableau.objective_function_value();
                         let basis_change_computation_info = tableau.bring_into_basis(
                             pivot_column_index, pivot_row_index,
                             column_with_info, cost,
                         );
                         rule.after_basis_update(basis_change_computation_info, &tableau);
+                        nr_stalled = if tableau.objective_function_value() == objective {
+                            nr_stalled + 1
+                        } else {
+                            0
+                        };
                     }
                     None => panic!("Artificial cost can not be unbounded."),
                 }
diff --git a/src/algorithm/two_phase/phase_two.rs b/src/algorithm/two_phase/phase_two.rs
index b72563c..c2eb26a 100644
--- a/src/algorithm/two_phase/phase_two.rs
+++ b/src/algorithm/two_phase/phase_two.rs
@@ -2,7 +2,7 @@
 use crate::algorithm::OptimizationResult;
 use crate::algorithm::two_phase::matrix_provider::column::Column;
 use crate::algorithm::two_phase::matrix_provider::MatrixProvider;
-use crate::algorithm::two_phase::strategy::pivot_rule::PivotRule;
+use crate::algorithm::two_phase::strategy::pivot_rule::{FirstProfitable, PivotRule};
 use crate::algorithm::two_phase::tableau::{debug_assert_in_basic_feasible_solution_state, Tableau};
 use crate::algorithm::two_phase::tableau::inverse_maintenance::{ColumnComputationInfo, InverseMaintainer, ops as im_ops};
 use crate::algorithm::two_phase::tableau::kind::non_artificial::NonArtificial;
@@ -32,6 +32,9 @@ where
     PR: PivotRule<IM::F>,
 {
     let mut rule = PR::new(tableau);
+    // Number of basis changes since the objective last improved. When there are many, `rule` might be
+    // cycling, and Bland's rule is used until the objective improves.
+    let mut nr_stalled = 0;
 
     loop {
         debug_assert!({
@@ -39,16 +42,27 @@ where
             true
         });
 
-        match rule.select_primal_pivot_column(tableau) {
+        let selected = if nr_stalled > tableau.nr_rows() + tableau.nr_columns() {
+            FirstProfitable.select_primal_pivot_column(tableau)
+        } else {
+            rule.select_primal_pivot_column(tableau)
+        };
+        match selected {
             Some((pivot_column_index, cost)) => {
                 let column_with_info = tableau.generate_column(pivot_column_index);
                 match tableau.select_primal_pivot_row(column_with_info.column()) {
                     Some(pivot_row_index) => {
+                        let objective = tableau.objective_function_value();
                         let basis_change_computation_info = tableau.bring_into_basis(
                             pivot_column_index, pivot_row_index,
                             column_with_info, cost,
                         );
                         rule.after_basis_update(basis_change_computation_info,&tableau);
+                        nr_stalled = if tableau.objective_function_value() == objective {
+                            nr_stalled + 1
+                        } else {
+                            0
+                        };
                     }
                     None => break OptimizationResult::Unbounded,
                 }
-- 
2.43.0


From 6477adff9f016ac5a77a2f68d1f70d4d23276fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:40 +0000
Subject: [PATCH 04/30] fix: correct the inverted assertions when deleting a
 row

---
 .../two_phase/matrix_provider/filter/generic_wrapper.rs       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
index 62c6973..0afdd57 100644
--- a/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
+++ b/src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs
@@ -147,7 +147,7 @@ where
         debug_assert!(i < self.provider.nr_rows() - self.rows_to_skip.len());
 
         let in_original_problem = self.get_underlying_row_index(i);
-        debug_assert!(self.rows_to_skip.contains(&in_original_problem));
+        debug_assert!(!self.rows_to_skip.contains(&in_original_problem));
         let insertion_index = match self.rows_to_skip.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting a row that already was deleted!"),
             Err(nr) => nr,
@@ -211,7 +211,7 @@ where
     /// * `i`: Index in the reduced version of the problem to be deleted from the original problem.
     fn delete_index(skip_indices_array: &mut Vec<usize>, i: usize) {
         let in_original_problem = RemoveRows::<MP>::get_underlying_index(skip_indices_array, i);
-        debug_assert!(skip_indices_array.contains(&in_original_problem));
+        debug_assert!(!skip_indices_array.contains(&in_original_problem));
 
         let insertion_index = match skip_indices_array.binary_search(&in_original_problem) {
             Ok(_) => panic!("Deleting an index that already was deleted."),
-- 
2.43.0


From b7b63890d0267de7619ac94c093404522bb468cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:11 +0000
Subject: [PATCH 05/30] fix: add and subtract arc directions exactly

---
 src/data/linear_program/network/representation.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/network/representation.rs b/src/data/linear_program/network/representation.rs
index 3a2d5b3..ef4124c 100644
--- a/src/data/linear_program/network/representation.rs
+++ b/src/data/linear_program/network/representation.rs
@@ -5,7 +5,7 @@ use std::fmt;
 use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};
 
 use index_utils::remove_sparse_indices;
-use relp_num::{Field, Negateable, One};
+use relp_num::{Field, Negateable};
 use relp_num::NonZero;
 use relp_num::RationalBig;
 
@@ -210,8 +210,8 @@ impl AddAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn add_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self += One,
-            ArcDirection::Outgoing => *self -= One,
+            ArcDirection::Incoming => *self += RationalBig::one(),
+            ArcDirection::Outgoing => *self -= RationalBig::one(),
         }
     }
 }
@@ -249,8 +249,8 @@ impl SubAssign<&ArcDirection> for RationalBig {
     #[inline]
     fn sub_assign(&mut self, rhs: &ArcDirection) {
         match rhs {
-            ArcDirection::Incoming => *self -= One,
-            ArcDirection::Outgoing => *self += One,
+            ArcDirection::Incoming => *self -= RationalBig::one(),
+            ArcDirection::Outgoing => *self += RationalBig::one(),
         }
     }
 }
-- 
2.43.0


From ffd2096d1526c5d2dd1280383d088cc0ae2badfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 06/30] fix: compare shifted values of a vector in their own
 type

A value equal to the shift was dropped from the vector rather than doubled, because the comparison of
values of different types ignores the sign.
---
 src/data/linear_algebra/vector/sparse.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 77b0fd5..b57864b 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -308,7 +308,9 @@ where
         if value.is_not_zero() {
             match self.get_data_index(i) {
                 Ok(index) => {
-                    if self.data[index].1 == -&value {
+                    // The comparison is done between values of the same type: comparing a value
+                    // with a value of another type might not consider the sign.
+                    if self.data[index].1 == F::from(-&value) {
                         self.set_zero(i);
                     } else {
                         self.data[index].1 += value;
-- 
2.43.0


From 8a5f0e86bd25bcd4d3f25abce47a2773e7be824d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 07/30] fix: negate the fixed cost when making a minimization
 problem

---
 src/data/linear_program/general_form/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c3b1019..90cbaa2 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -624,6 +624,7 @@ where
         if self.objective == Objective::Maximize {
             self.objective = Objective::Minimize;
 
+            self.fixed_cost *= -OF::one();
             for variable in &mut self.variables {
                 variable.cost *= -OF::one();
             }
-- 
2.43.0


From a301404f883ffa8d93c61de7ebde2a462afd896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 08/30] fix: scale problems in which no factors are identified

---
 .../general_form/presolve/scale/rational/mod.rs       | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
index 9209629..7b7c218 100644
--- a/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
+++ b/src/data/linear_program/general_form/presolve/scale/rational/mod.rs
@@ -52,10 +52,11 @@ where
     fn scale(&mut self) -> Scaling<R> {
         // Factorize all numbers at once
         let factorization = self.factorize();
+        let (nr_rows, nr_columns) = (factorization.nr_constraints(), factorization.nr_variables());
         // Optimize per factor
         let scale_per_factor = factorization.solve();
         // Aggregate scaling per factor
-        let scaling = combine_factors(scale_per_factor);
+        let scaling = combine_factors(scale_per_factor, nr_rows, nr_columns);
         // Apply the computed scaling
         scale(self, &scaling, |x, y| *x *= y, |x, y| *x /= y);
 
@@ -651,16 +652,14 @@ where
 /// The scaling is computed per factor but is applied at once. Combine the scaling of all factors.
 fn combine_factors<R>(
     scale_per_factor: Vec<(R::Factor, ((R::Power, Vec<R::Power>), Vec<R::Power>))>,
+    nr_rows: usize,
+    nr_columns: usize,
 ) -> Scaling<R>
 where
     R: NonZeroFactorizable<Power: Abs> + One,
     for<'r> R: MulAssign<&'r R::Factor> + DivAssign<&'r R::Factor>,
 {
-    debug_assert!(!scale_per_factor.is_empty());
-
-    let nr_rows = scale_per_factor[0].1.0.1.len();
-    let nr_columns = scale_per_factor[0].1.1.len();
-
+    // There are no factors at all when each value is zero, one or minus one.
     let mut cost_factor = R::one();
     let mut constraint_row_factors = vec![R::one(); nr_rows];
     let mut constraint_column_factors = vec![R::one(); nr_columns];
-- 
2.43.0


From 455cdec2d14b7b1773511018ae770fec367f76df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:28 +0000
Subject: [PATCH 09/30] fix: presolve range constraints of which the upper side
 equals the least activity

---
 .../general_form/presolve/rule/domain_propagation.rs           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index e481b45..de65b00 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -308,8 +308,7 @@ where
 
             // `l <= <a, x> =r= b == l`
             (BoundDirection::Lower, Range(_), Ordering::Equal) => {
-                unreachable!("Would require the range to be zero, in which case it should be an \
-                              equality bound instead.")
+                Ok(Some(ConstraintUpdate::SetVariablesToBound))
             },
         }
     }
-- 
2.43.0


From ada9a645c2f483711a28a265ccff57306a49f206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:11 +0000
Subject: [PATCH 10/30] fix: keep the right side of a range when presolve
 removes a slack bounded on one side

---
 .../general_form/presolve/rule/slack.rs       | 29 +++++++++++++------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 0c96df4..8be5756 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -45,7 +45,7 @@ where
     /// <=  || <a, x> <= b - cl |                  |      <a, x> <= b - cl      |      |
     /// ==  || <a, x> <= b - cl | <a, x> >= b - cu |   <a, x> =c(u-l)= b - cl   |      |
     /// >=  ||                  | <a, x> >= b - cu |      <a, x> >= b - cu      |      |
-    /// =r= || <a, x> <= b - cl | <a, x> >= b - cu | <a, x> =r + c(u-l)= b - cl |      |
+    /// =r= || <a, x> <= b - cl | >= b - r - cu    | <a, x> =r + c(u-l)= b - cl |      |
     ///
     /// When c < 0:
     ///     ||      s >= l      |      s <= u      |         l <= s <= u        | free |
@@ -53,7 +53,7 @@ where
     /// <=  ||                  | <a, x> <= b - cu |      <a, x> <= b - cu      |      |
     /// ==  || <a, x> >= b - cl | <a, x> <= b - cu |   <a, x> =c(l-u)= b - cu   |      |
     /// >=  || <a, x> >= b - cl |                  |      <a, x> >= b - cl      |      |
-    /// =r= || <a, x> >= b - cl | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
+    /// =r= || >= b - r - cl    | <a, x> <= b - cu | <a, x> =r + c(l-u)= b - cu |      |
     ///
     /// Note that nothing changes when the constraint is of type == and s has both a lower and
     /// upper bound (regardless of the sign of c). If a bound is adapted, the column is removed
@@ -101,7 +101,10 @@ where
                 // The order of the calls below is a bit critical because of the strict assumptions
                 // they make about the state of counters, updates etc.
 
-                let solution = self.compute_removed_variable_solution(constraint, variable, &coefficient);
+                let right_hand_side = self.updates.b(constraint).clone();
+                let solution = self.compute_removed_variable_solution(
+                    constraint, right_hand_side, variable, &coefficient,
+                );
 
                 let variables_to_scan = self.counters.iter_active_row(constraint)
                     .map(|(j, _)| j).collect::<Vec<_>>();
@@ -157,13 +160,20 @@ where
             },
         };
 
-        let change = -&coefficient * &bound;
+        let mut change = -&coefficient * &bound;
 
-        let removed = match constraint_type {
-            Equal | Range(_) => {
-                self.compute_removed_variable_solution(constraint, variable, &coefficient)
+        let removed = match (constraint_type, &new_constraint_type) {
+            (Range(range), Greater) => {
+                // Only the lower side of the range remains
+                change -= range;
+                let lower_side = self.updates.b(constraint) - range;
+                self.compute_removed_variable_solution(constraint, lower_side, variable, &coefficient)
             }
-            Greater | Less => RemovedVariable::Solved(bound),
+            (Equal | Range(_), _) => {
+                let right_hand_side = self.updates.b(constraint).clone();
+                self.compute_removed_variable_solution(constraint, right_hand_side, variable, &coefficient)
+            }
+            (Greater | Less, _) => RemovedVariable::Solved(bound),
         };
         self.counters.variable[variable] -= 1;
         self.remove_variable(variable, removed);
@@ -202,10 +212,11 @@ where
     fn compute_removed_variable_solution(
         &self,
         constraint: usize,
+        value: OF,
         variable: usize,
         coefficient: &OF,
     ) -> RemovedVariable<OF> {
-        let constant = self.updates.b(constraint) / coefficient;
+        let constant = value / coefficient;
         let coefficients = self.counters.iter_active_row(constraint)
             .filter(|&(j, _)| j != variable)
             .map(|(j, other_coefficient)| {
-- 
2.43.0


From caf2277f3e9c9ccffe58c294c6e7e79ccf3bed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:22 +0000
Subject: [PATCH 11/30] fix: let presolve remove eliminated variables from the
 activity bounds

---
 .../general_form/presolve/mod.rs              | 31 ++++++++++++++++++-
 .../presolve/rule/fixed_variable.rs           |  5 +--
 .../general_form/presolve/rule/slack.rs       |  6 ++--
 3 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 76cebc2..7811781 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -126,7 +126,7 @@ where
     /// `Err` type.
     pub(super) fn presolve_step(&mut self) -> Result<Change, LinearProgramType<OF>> {
         // Rules that are guaranteed to make the problem smaller
-        if let Some(variable) = self.queues.substitution.pop() {
+        while let Some(variable) = self.queues.substitution.pop() {
             if self.counters.is_variable_still_active(variable) {
                 return self.presolve_fixed_variable(variable)
                     // always removes a variable
@@ -270,6 +270,35 @@ where
         }
     }
 
+    /// A variable no longer contributes to the activity of a constraint.
+    ///
+    /// # Arguments
+    ///
+    /// * `constraint`: Constraint from which the variable is removed.
+    /// * `coefficient`: Coefficient of the variable in the constraint.
+    /// * `lower`: Lower bound of the variable.
+    /// * `upper`: Upper bound of the variable.
+    fn remove_from_activity_bounds(
+        &mut self,
+        constraint: usize,
+        coefficient: &OF,
+        lower: Option<&OF>,
+        upper: Option<&OF>,
+    ) {
+        let activity_bounds = &mut self.activity_bounds[constraint];
+        let (for_lower, for_upper) = match coefficient.non_zero_signum() {
+            NonZeroSign::Positive => (lower, upper),
+            NonZeroSign::Negative => (upper, lower),
+        };
+
+        if let (Some(activity), Some(bound)) = (&mut activity_bounds.0, for_lower) {
+            *activity -= coefficient * bound;
+        }
+        if let (Some(activity), Some(bound)) = (&mut activity_bounds.1, for_upper) {
+            *activity -= coefficient * bound;
+        }
+    }
+
     /// Mark a constraint as removed.
     ///
     /// There should be more than one element in this row, otherwise, the column that can be removed
diff --git a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
index 76ecda9..2d41724 100644
--- a/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
+++ b/src/data/linear_program/general_form/presolve/rule/fixed_variable.rs
@@ -36,9 +36,10 @@ where
         // Can't combine these loops because of the reference in `coefficient` clashing with the
         // counter update.
         let rows_to_substitute = self.counters.iter_active_column(variable)
-            .map(|(i, _)| i)
+            .map(|(i, coefficient)| (i, coefficient.clone()))
             .collect::<Vec<_>>();
-        for constraint in rows_to_substitute {
+        for (constraint, coefficient) in rows_to_substitute {
+            self.remove_from_activity_bounds(constraint, &coefficient, Some(&value), Some(&value));
             self.counters.variable[variable] -= 1;
             self.counters.constraint[constraint] -= 1;
             self.queue_constraint_by_counter(constraint)?;
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index 8be5756..dde4ad0 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -85,13 +85,12 @@ where
         let upper = self.updates.variable_bound(variable, BoundDirection::Upper);
         // TODO(ARCHITECTURE): This clone is necessary because the borrow can't be split enough.
         let bounds = (lower.cloned(), upper.cloned());
-        // We see whether these are `None` here already such that `bounds` can be moved in the match
         let bounds_is_none = (lower.is_none(), upper.is_none());
         let coefficient_sign = coefficient.non_zero_signum();
 
         // Patterns are ordered left to right, top to bottom and then by coefficient (positive to
         // negative)
-        let (new_constraint_type, bound) = match (constraint_type, bounds, coefficient_sign) {
+        let (new_constraint_type, bound) = match (constraint_type, bounds.clone(), coefficient_sign) {
             // Remove both row and column
             (Greater, (Some(_), None), Positive) | (Less, (None, Some(_)), Positive) |
             (Less, (Some(_), None), Negative) | (Greater, (None, Some(_)), Negative) |
@@ -178,6 +177,9 @@ where
         self.counters.variable[variable] -= 1;
         self.remove_variable(variable, removed);
 
+        self.remove_from_activity_bounds(
+            constraint, &coefficient, bounds.0.as_ref(), bounds.1.as_ref(),
+        );
         self.update_activity_queues_if_needed(constraint, bounds_is_none, coefficient_sign);
         self.counters.constraint[constraint] -= 1;
         self.queue_constraint_by_counter(constraint).map(|_| ())?;
-- 
2.43.0


From 1422a1e96e1b8224c32e1f88289add2468d6f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:23 +0000
Subject: [PATCH 12/30] fix: update the activity bounds of other constraints
 when presolve fixes the variables of a constraint

---
 .../presolve/rule/domain_propagation.rs            | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index de65b00..69f2ed2 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -175,7 +175,7 @@ where
                     (false, true)
                 },
                 ConstraintUpdate::SetVariablesToBound => {
-                    let mut activity_counters_to_update = Vec::new();
+                    let mut changes = Vec::new();
                     for (variable, coefficient) in self.counters.iter_active_row(constraint) {
                         let variable_direction = direction * coefficient.non_zero_signum();
                         let bound = self.updates.variable_bound(variable, variable_direction)
@@ -190,16 +190,18 @@ where
                         }
                         // Update the other bound to be the same
                         let change = self.updates.update_bound(variable, !variable_direction, bound.clone());
-                        if change == BoundChange::NewBound {
-                            activity_counters_to_update.push((variable, !variable_direction));
-                        }
+                        changes.push((variable, !variable_direction, change));
                         debug_assert!(self.updates.is_variable_fixed(variable).is_some());
 
                         self.queues.substitution.push(variable);
                     }
 
-                    for (variable, direction) in activity_counters_to_update {
-                        self.update_activity_counters(variable, direction);
+                    for (variable, direction, change) in changes {
+                        match change {
+                            BoundChange::None => {},
+                            BoundChange::NewBound => self.update_activity_counters(variable, direction),
+                            BoundChange::BoundShift(shift) => self.update_activity_bounds(variable, direction, shift),
+                        }
                     }
 
                     (true, false)
-- 
2.43.0


From 41a9345895387f973f968bb8116ba7e2badc44f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:24 +0000
Subject: [PATCH 13/30] fix: keep the variable bounds because of which presolve
 removes a constraint

---
 .../presolve/rule/domain_propagation.rs       | 25 ++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index 69f2ed2..cfc2ea9 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -167,8 +167,13 @@ where
         let constraint_update = self.constraint_update(constraint, bound, direction)?;
         if let Some(change) = constraint_update {
             let (remove_constraint, apply_variable_part) = match change {
-                ConstraintUpdate::Remove => (true, true), // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                ConstraintUpdate::Remove => {
+                    self.keep_bounds_in_activity(constraint, direction);
+
+                    (true, true) // TODO(CORRECTNESS): Should the second value be changed to `false`?
+                },
                 ConstraintUpdate::Replace(new_inequality, right_hand_side_shift) => {
+                    self.keep_bounds_in_activity(constraint, direction);
                     self.updates.constraints.insert(constraint, new_inequality.into());
                     self.updates.change_b(constraint, right_hand_side_shift);
 
@@ -215,6 +220,24 @@ where
         }
     }
 
+    /// Adopt the variable bounds on which an activity bound is based.
+    ///
+    /// When (a side of) a constraint is removed because the variable bounds imply it, those bounds
+    /// can't be discarded: they might be derived from that very constraint.
+    ///
+    /// # Arguments
+    ///
+    /// * `constraint`: Index of the constraint under consideration.
+    /// * `direction`: Whether it's the activity lower- or upperbound that was used.
+    fn keep_bounds_in_activity(&mut self, constraint: usize, direction: BoundDirection) {
+        for (variable, coefficient) in self.counters.iter_active_row(constraint) {
+            let bound = (variable, direction * coefficient.non_zero_signum());
+            if let Some(value) = self.updates.activity_bounds.remove(&bound) {
+                self.updates.bounds.insert(bound, value);
+            }
+        }
+    }
+
     /// Whether a constraint can be removed.
     ///
     /// We start with `<a, x> (== =r= <= >=) b`, `l <= <a, x>` or `<a, x> <= u` and `a (= < >) b`
-- 
2.43.0


From 33c605bc07d4013ab1612e0f5b1f525895cbb9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:48 +0000
Subject: [PATCH 14/30] fix: let presolve notice that derived bounds leave no
 value for a variable

---
 .../general_form/presolve/mod.rs              | 12 ++++++++-
 .../presolve/rule/bound_constraint.rs         |  4 +--
 .../presolve/rule/domain_propagation.rs       | 26 ++++++++++---------
 3 files changed, 27 insertions(+), 15 deletions(-)

diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index 7811781..df0e2b7 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -176,18 +176,26 @@ where
     /// * `direction`: Whether the lower- or upper variable bound was updated.
     /// * `change`: Whether another bound was previously known, and the difference between the
     /// former and current bound.
+    ///
+    /// # Errors
+    ///
+    /// If no value is left for the variable.
     fn after_bound_change(
         &mut self,
         variable: usize,
         direction: BoundDirection,
         change: Option<OF>,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         debug_assert!(self.updates.removed_variables.iter().all(|&(j, _)| variable != j));
         debug_assert!(match direction {
             BoundDirection::Lower => change.as_ref().map_or(true, |v| v.is_positive()),
             BoundDirection::Upper => change.as_ref().map_or(true, |v| v.is_negative()),
         });
 
+        if self.updates.variable_feasible_value(variable).is_none() {
+            return Err(LinearProgramType::Infeasible);
+        }
+
         if self.updates.is_variable_fixed(variable).is_some() && self.counters.is_variable_still_active(variable) {
             self.queues.substitution.push(variable);
         }
@@ -196,6 +204,8 @@ where
             Some(difference) => self.update_activity_bounds(variable, direction, difference),
             None => self.update_activity_counters(variable, direction),
         }
+
+        Ok(())
     }
 
     /// Update an activity bound if it exists.
diff --git a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
index ab2ba64..e618f81 100644
--- a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
+++ b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
@@ -74,8 +74,8 @@ where
         for (direction, bound_value) in changes {
             match self.updates.update_bound(variable, direction, bound_value) {
                 BoundChange::None => {}
-                BoundChange::NewBound => self.after_bound_change(variable, direction, None),
-                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift)),
+                BoundChange::NewBound => self.after_bound_change(variable, direction, None)?,
+                BoundChange::BoundShift(shift) => self.after_bound_change(variable, direction, Some(shift))?,
             }
         }
 
diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index cfc2ea9..aa659e0 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -51,7 +51,7 @@ where
 
         match counter {
             0 => self.for_entire_constraint(constraint, direction),
-            1 => Ok(self.create_variable_bound(constraint, direction)),
+            1 => self.create_variable_bound(constraint, direction),
             _ => unreachable!("Constraint should not be added to the activity queue before the counter is 0 or 1."),
         }
     }
@@ -99,7 +99,7 @@ where
                     &activity_bound,
                     direction,
                     &mut most_meaningful_change,
-                );
+                )?;
             }
         }
 
@@ -362,7 +362,7 @@ where
         activity_bound: &OF,
         activity_direction: BoundDirection,
         made_change: &mut Change,
-    ) {
+    ) -> Result<(), LinearProgramType<OF>> {
         let targets = self.counters.iter_active_row(constraint)
             .map(|(i, v)| (i, v.clone())) // TODO(ARCHITECTURE): Avoid this clone
             .collect::<Vec<_>>();
@@ -385,17 +385,19 @@ where
             match change {
                 BoundChange::None => {},
                 BoundChange::NewBound => {
-                    self.after_bound_change(variable, new_variable_bound_direction, None);
+                    self.after_bound_change(variable, new_variable_bound_direction, None)?;
                     *made_change = Change::Meaningful;
                 },
                 BoundChange::BoundShift(change) => {
-                    self.after_bound_change(variable, new_variable_bound_direction, Some(change));
+                    self.after_bound_change(variable, new_variable_bound_direction, Some(change))?;
                     if *made_change != Change::Meaningful {
                         *made_change = Change::NotMeaningful;
                     }
                 },
             }
         }
+
+        Ok(())
     }
 
     /// Apply domain propagation through activation bounds for a constraint where all but one of the
@@ -409,7 +411,7 @@ where
         &mut self,
         constraint: usize,
         activity_direction: BoundDirection,
-    ) -> Change {
+    ) -> Result<Change, LinearProgramType<OF>> {
         // We should be exactly one variable bound away from being able to compute an activity
         // bound, otherwise, a different rule should be applied.
         debug_assert_eq!(
@@ -421,7 +423,7 @@ where
         );
 
         let right_hand_side = match self.can_variable_rule_be_applied(constraint, activity_direction) {
-            None => return Change::None,
+            None => return Ok(Change::None),
             Some(value) => value,
         };
 
@@ -443,14 +445,14 @@ where
         let value = (right_hand_side - total_activity) / target_coefficient;
         let bound_direction = !activity_direction * target_coefficient.non_zero_signum();
         match self.updates.update_activity_variable_bound(target_column, bound_direction, value) {
-            BoundChange::None => Change::None,
+            BoundChange::None => Ok(Change::None),
             BoundChange::NewBound => {
-                self.after_bound_change(target_column, bound_direction, None);
-                Change::Meaningful
+                self.after_bound_change(target_column, bound_direction, None)?;
+                Ok(Change::Meaningful)
             },
             BoundChange::BoundShift(shift) => {
-                self.after_bound_change(target_column, bound_direction, Some(shift));
-                Change::NotMeaningful
+                self.after_bound_change(target_column, bound_direction, Some(shift))?;
+                Ok(Change::NotMeaningful)
             },
         }
     }
-- 
2.43.0


From eab311274968a42e9c91a4df098eeb1efae6bf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 15/30] fix: let presolve report unbounded problems only when
 they are feasible

---
 src/data/linear_program/general_form/mod.rs   |  4 ++
 .../general_form/presolve/mod.rs              | 20 +++---
 .../presolve/rule/bound_constraint.rs         |  5 +-
 .../presolve/rule/domain_propagation.rs       |  2 +-
 .../general_form/presolve/rule/slack.rs       |  2 +-
 .../general_form/presolve/updates.rs          | 66 ++++++++++++-------
 6 files changed, 64 insertions(+), 35 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 90cbaa2..0d84659 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -405,6 +405,10 @@ where
             }
         }
 
+        if index.updates.unbounded_if_feasible && index.updates.nr_constraints_remaining() == 0 {
+            return Err(LinearProgramType::Unbounded);
+        }
+
         Ok(index.updates.into_changes())
     }
 
diff --git a/src/data/linear_program/general_form/presolve/mod.rs b/src/data/linear_program/general_form/presolve/mod.rs
index df0e2b7..42dc8e1 100644
--- a/src/data/linear_program/general_form/presolve/mod.rs
+++ b/src/data/linear_program/general_form/presolve/mod.rs
@@ -321,7 +321,7 @@ where
     fn remove_constraint_values(
         &mut self,
         constraint: usize,
-    ) -> Result<(), LinearProgramType<OF>> {
+    ) {
         // TODO(ARCHITECTURE): Avoid this clone and collect.
         let variables_to_scan = self.counters.iter_active_row(constraint)
             .map(|(j, _)| j)
@@ -329,17 +329,17 @@ where
         for variable in variables_to_scan {
             self.counters.constraint[constraint] -= 1;
             self.counters.variable[variable] -= 1;
-            self.queue_variable_by_counter(variable)?;
+            self.queue_variable_by_counter(variable);
         }
 
         debug_assert_eq!(self.counters.constraint[constraint], 0);
-        Ok(())
     }
 
     /// When the variable counter drops low, this has implications for rules that should be tested.
     ///
-    /// Note that if a variable has no coefficients, we solve it directly in this function.
-    fn queue_variable_by_counter(&mut self, variable: usize) -> Result<(), LinearProgramType<OF>> {
+    /// Note that if a variable has no coefficients, we solve it directly in this function, unless it
+    /// has no optimal value.
+    fn queue_variable_by_counter(&mut self, variable: usize) {
         match self.counters.variable[variable] {
             0 => {
                 // If a variable is unfeasible before presolving, should have been detected during
@@ -348,19 +348,19 @@ where
                 debug_assert!(self.updates.variable_feasible_value(variable).is_some());
 
                 let value = if self.general_form.variables[variable].cost.is_zero() {
-                    RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap())
+                    Some(RemovedVariable::Solved(self.updates.variable_feasible_value(variable).unwrap()))
                 } else {
-                    self.updates.optimize_column_independently(variable)?
+                    self.updates.optimize_column_independently(variable)
                 };
-                self.remove_variable(variable, value);
+                if let Some(value) = value {
+                    self.remove_variable(variable, value);
+                }
             },
             1 => if self.general_form.variables[variable].cost.is_zero() {
                 self.queues.slack.push(variable);
             },
             _ => (),
         }
-
-        Ok(())
     }
 
     /// If the number of elements in a constraint drops below a certain number, something might need
diff --git a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
index e618f81..3de9ebb 100644
--- a/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
+++ b/src/data/linear_program/general_form/presolve/rule/bound_constraint.rs
@@ -81,7 +81,10 @@ where
 
         match self.updates.variable_feasible_value(variable) {
             None => Err(LinearProgramType::Infeasible),
-            Some(_) => self.queue_variable_by_counter(variable),
+            Some(_) => {
+                self.queue_variable_by_counter(variable);
+                Ok(())
+            },
         }
     }
 }
diff --git a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
index aa659e0..3982504 100644
--- a/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
+++ b/src/data/linear_program/general_form/presolve/rule/domain_propagation.rs
@@ -104,7 +104,7 @@ where
         }
 
         if remove_constraint {
-            self.remove_constraint_values(constraint)?;
+            self.remove_constraint_values(constraint);
             self.remove_constraint(constraint);
         }
 
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index dde4ad0..da28b35 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -111,7 +111,7 @@ where
                     self.counters.constraint[constraint] -= 1;
                     self.counters.variable[other_variable] -= 1;
                     if other_variable != variable {
-                        self.queue_variable_by_counter(other_variable)?;
+                        self.queue_variable_by_counter(other_variable);
                     }
                 }
 
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 90bf812..68c28f4 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -47,6 +47,11 @@ pub struct Updates<'a, F> {
     ///
     /// This collection is here only to avoid an extra scan over the `column_counters`.
     pub constraints_marked_removed: Vec<usize>,
+    /// Whether there is a variable without constraints that can improve the objective endlessly.
+    ///
+    /// The problem is unbounded only if it is feasible as well. As long as that is not known, those
+    /// variables are not removed.
+    pub unbounded_if_feasible: bool,
 
     // Changes during presolving, might be discarded when computing final changes
     /// Activity variable bounds.
@@ -108,9 +113,10 @@ where
         counters: &Counters<OF>,
     ) -> Result<Self, LinearProgramType<OF>> {
         let mut fixed_cost = OF::zero();
+        let mut unbounded_if_feasible = false;
         let removed_variables = counters.variable.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
-            .map(|(j, _)| {
+            .filter_map(|(j, _)| {
                 let variable = &general_form.variables[j];
                 // There should be a feasible value, otherwise, reading of the problem should have
                 // been ended due to a trivial infeasibility.
@@ -123,13 +129,21 @@ where
                         general_form.objective,
                         &variable.cost,
                         (variable.lower_bound.as_ref(), variable.upper_bound.as_ref()),
-                    )?;
-                    fixed_cost += &variable.cost * &value;
-                    value
+                    );
+                    match value {
+                        Some(value) => {
+                            fixed_cost += &variable.cost * &value;
+                            value
+                        },
+                        None => {
+                            unbounded_if_feasible = true;
+                            return None;
+                        },
+                    }
                 };
 
-                Ok((j, RemovedVariable::Solved(value)))
-            }).collect::<Result<_, _>>()?;
+                Some((j, RemovedVariable::Solved(value)))
+            }).collect();
 
         let constraints_marked_removed = counters.constraint.iter().enumerate()
             .filter(|&(_, &count)| count == 0)
@@ -152,6 +166,7 @@ where
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
             constraints_marked_removed,
+            unbounded_if_feasible,
 
             activity_bounds: HashMap::new(),
 
@@ -365,20 +380,31 @@ where
     }
 
     /// Sets variables that can be optimized independently of all others to their optimal values.
+    ///
+    /// # Return value
+    ///
+    /// `None` if there is no optimal value, because the variable can improve the objective
+    /// endlessly.
     pub(super) fn optimize_column_independently(
         &mut self,
         variable: usize,
-    ) -> Result<RemovedVariable<OF>, LinearProgramType<OF>> {
+    ) -> Option<RemovedVariable<OF>> {
         debug_assert_ne!(self.general_form.variables[variable].cost, OF::zero());
 
-        let new_value = self.get_optimized_value(variable)?;
-        self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
-
-        Ok(RemovedVariable::Solved(new_value))
+        match self.get_optimized_value(variable) {
+            Some(new_value) => {
+                self.fixed_cost += &self.general_form.variables[variable].cost * &new_value;
+                Some(RemovedVariable::Solved(new_value))
+            },
+            None => {
+                self.unbounded_if_feasible = true;
+                None
+            },
+        }
     }
 
     /// Gets the value that maximizes a column's contribution in the objective direction.
-    fn get_optimized_value(&self, variable: usize) -> Result<OF, LinearProgramType<OF>> {
+    fn get_optimized_value(&self, variable: usize) -> Option<OF> {
         let objective = self.general_form.objective;
         let cost = &self.general_form.variables[variable].cost;
         let lower_bound = self.variable_bound(variable, BoundDirection::Lower);
@@ -531,17 +557,13 @@ where
 ///
 /// # Returns
 ///
-/// The optimal value if the variable appears in the objective function. Otherwise, any feasible
-/// value.
-///
-/// # Errors
-///
-/// The problem might be unbounded.
+/// The optimal value, or `None` if the variable is not bounded in the direction that improves the
+/// objective.
 fn optimize_independent_column<OF>(
     objective: Objective,
     cost: &OF,
     (lower_bound, upper_bound): (Option<&OF>, Option<&OF>),
-) -> Result<OF, LinearProgramType<OF>>
+) -> Option<OF>
 where
     OF: OrderedField,
     for<'r> &'r OF: OrderedFieldRef<OF>,
@@ -550,11 +572,11 @@ where
 
     match (objective, cost_sign) {
         (Objective::Minimize, Ordering::Greater) | (Objective::Maximize, Ordering::Less) => {
-            lower_bound.ok_or(LinearProgramType::Unbounded)
+            lower_bound
         },
         (Objective::Maximize, Ordering::Greater) | (Objective::Minimize, Ordering::Less) => {
-            upper_bound.ok_or(LinearProgramType::Unbounded)
+            upper_bound
         },
         (_, Ordering::Equal) => panic!("Should not be called if there is no cost"),
-    }.map(OF::clone)
+    }.cloned()
 }
-- 
2.43.0


From e5c3747f88a63e0ea158976640a4fea56beeba8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:52 +0000
Subject: [PATCH 16/30] fix: record the variables removed by a repeated
 presolve under their original index

---
 src/data/linear_program/general_form/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index 0d84659..c6ba6f6 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -443,7 +443,8 @@ where
         self.fixed_cost += fixed_cost;
 
         for (j, variable) in solved_variables {
-            self.original_variables[j].1 = OriginalVariable::Removed(variable);
+            let original = self.from_active_to_original[j];
+            self.original_variables[original].1 = OriginalVariable::Removed(variable);
         }
 
         for ((j, direction), value) in bounds {
-- 
2.43.0


From 233bbc9a381a4dd75e481df194ea8691c9392da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:36 +0000
Subject: [PATCH 17/30] fix: keep the values of slacks that presolve removed
 within their bounds

---
 src/data/linear_program/general_form/mod.rs   | 71 +++++++++++++++++--
 .../general_form/presolve/rule/slack.rs       |  4 ++
 .../general_form/presolve/updates.rs          | 12 +++-
 3 files changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/data/linear_program/general_form/mod.rs b/src/data/linear_program/general_form/mod.rs
index c6ba6f6..c5a8cdb 100644
--- a/src/data/linear_program/general_form/mod.rs
+++ b/src/data/linear_program/general_form/mod.rs
@@ -102,6 +102,22 @@ enum OriginalVariable<F> {
     ///
     /// Probably by a presolve operation. An explicit value might not be known.
     Removed(RemovedVariable<F>),
+
+    /// Variable was removed, and has bounds that the function it was determined as might exceed.
+    ///
+    /// The value of the variable is the value of `constant - <coefficients, x>` if that is within
+    /// the bounds, and the bound closest to that value otherwise. See also the documentation on the
+    /// `RemovedVariable::FunctionOfOthers` variant.
+    RemovedWithBounds {
+        /// See `RemovedVariable::FunctionOfOthers`.
+        constant: F,
+        /// See `RemovedVariable::FunctionOfOthers`.
+        coefficients: SparseTupleVec<F>,
+        /// Lower bound of the variable when it was removed.
+        lower_bound: Option<F>,
+        /// Upper bound of the variable when it was removed.
+        upper_bound: Option<F>,
+    },
 }
 
 /// A variable from the original problem that was removed.
@@ -131,6 +147,15 @@ pub enum RemovedVariable<F> {
     },
 }
 
+/// Replace a value that exceeds a bound by that bound.
+fn move_within_bounds<T: Ord>(value: T, lower_bound: Option<T>, upper_bound: Option<T>) -> T {
+    match (lower_bound, upper_bound) {
+        (Some(lower), _) if value < lower => lower,
+        (_, Some(upper)) if value > upper => upper,
+        _ => value,
+    }
+}
+
 /// Check whether the dimensions of the `GeneralForm` are consistent.
 ///
 /// This method might be expensive, use it in debugging only. It can be viewed as a piece of
@@ -442,11 +467,6 @@ where
 
         self.fixed_cost += fixed_cost;
 
-        for (j, variable) in solved_variables {
-            let original = self.from_active_to_original[j];
-            self.original_variables[original].1 = OriginalVariable::Removed(variable);
-        }
-
         for ((j, direction), value) in bounds {
             let variable = &mut self.variables[j];
             *match direction {
@@ -454,6 +474,21 @@ where
                 BoundDirection::Upper => &mut variable.upper_bound,
             } = Some(value);
         }
+
+        for (j, variable) in solved_variables {
+            let original = self.from_active_to_original[j];
+            self.original_variables[original].1 = match variable {
+                FunctionOfOthers { constant, coefficients } if !self.variables[j].is_free() => {
+                    OriginalVariable::RemovedWithBounds {
+                        constant,
+                        coefficients,
+                        lower_bound: self.variables[j].lower_bound.clone(),
+                        upper_bound: self.variables[j].upper_bound.clone(),
+                    }
+                },
+                variable => OriginalVariable::Removed(variable),
+            };
+        }
     }
 
     /// Remove a set of rows and columns from the constraint data.
@@ -727,7 +762,7 @@ where
         let mut new_solutions = vec![None; self.original_variables.len()];
         let mut changed = Vec::new();
         for (j, (_, variable)) in self.original_variables.iter().enumerate() {
-            if let OriginalVariable::Removed(FunctionOfOthers { .. }) = variable {
+            if let OriginalVariable::Removed(FunctionOfOthers { .. }) | OriginalVariable::RemovedWithBounds { .. } = variable {
                 if self.compute_solution_value(j, &mut new_solutions).is_some() {
                     changed.push(j);
                 }
@@ -776,6 +811,19 @@ where
                         .map(|inner_product| constant - inner_product);
                 }
 
+                new_solutions[variable].as_ref()
+            }
+            OriginalVariable::RemovedWithBounds { constant, coefficients, lower_bound, upper_bound } => {
+                if new_solutions[variable].is_none() {
+                    new_solutions[variable] = coefficients.iter().map(|(j, coefficient)| {
+                        self.compute_solution_value(*j, new_solutions).map(|v| coefficient * v)
+                    })
+                        .sum::<Option<OF>>()
+                        .map(|inner_product| {
+                            move_within_bounds(constant - inner_product, lower_bound.clone(), upper_bound.clone())
+                        });
+                }
+
                 new_solutions[variable].as_ref()
             }
         }
@@ -899,7 +947,7 @@ where
         reduced_solution: &SparseVector<G, G>,
     ) -> &'a G
     where
-        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero,
+        G: LinearAlgebraElement<G> + Zero + From<OF> + Sum + Neg<Output=G> + NonZero + Ord,
         for<'r> G: Add<&'r OF, Output=G>,
         for<'r> &'r G: Neg<Output=G> + Mul<&'r OF, Output=G> + Add<&'r OF, Output=G> + Sub<&'r G, Output=G>,
     {
@@ -932,6 +980,15 @@ where
                     })
                     .sum::<G>() + constant
             }
+            OriginalVariable::RemovedWithBounds { constant, coefficients, lower_bound, upper_bound } => {
+                let value = -coefficients.iter()
+                    .map(|(j, coefficient)| {
+                        self.compute_solution_value_with_bfs::<G>(*j, new_solutions, reduced_solution) * coefficient
+                    })
+                    .sum::<G>() + constant;
+
+                move_within_bounds(value, lower_bound.clone().map(Into::into), upper_bound.clone().map(Into::into))
+            }
         };
 
         new_solutions[variable] = Some(new_solution);
diff --git a/src/data/linear_program/general_form/presolve/rule/slack.rs b/src/data/linear_program/general_form/presolve/rule/slack.rs
index da28b35..891f22b 100644
--- a/src/data/linear_program/general_form/presolve/rule/slack.rs
+++ b/src/data/linear_program/general_form/presolve/rule/slack.rs
@@ -115,6 +115,7 @@ where
                     }
                 }
 
+                self.updates.slacks_with_bounds.insert(variable);
                 self.remove_variable(variable, solution);
                 self.remove_constraint(constraint);
 
@@ -174,6 +175,9 @@ where
             }
             (Greater | Less, _) => RemovedVariable::Solved(bound),
         };
+        if let Range(_) = constraint_type {
+            self.updates.slacks_with_bounds.insert(variable);
+        }
         self.counters.variable[variable] -= 1;
         self.remove_variable(variable, removed);
 
diff --git a/src/data/linear_program/general_form/presolve/updates.rs b/src/data/linear_program/general_form/presolve/updates.rs
index 68c28f4..39fec90 100644
--- a/src/data/linear_program/general_form/presolve/updates.rs
+++ b/src/data/linear_program/general_form/presolve/updates.rs
@@ -43,6 +43,11 @@ pub struct Updates<'a, F> {
     /// `RemovedVariable` struct. All variables for which a solution was found should be part of the
     /// `removed_variables` field.
     pub removed_variables: Vec<(usize, RemovedVariable<F>)>,
+    /// Eliminated slack variables whose bounds are needed to determine their value.
+    ///
+    /// The constraint of such a slack can be satisfied by several of its values, not all of which
+    /// are within its bounds.
+    pub slacks_with_bounds: HashSet<usize>,
     /// Collecting the indices, relative to the active part of the problem, that should be removed.
     ///
     /// This collection is here only to avoid an extra scan over the `column_counters`.
@@ -165,6 +170,7 @@ where
             bounds: HashMap::new(),
             // Variables that don't appear in any constraint are removed right away.
             removed_variables,
+            slacks_with_bounds: HashSet::new(),
             constraints_marked_removed,
             unbounded_if_feasible,
 
@@ -428,8 +434,10 @@ where
             self.constraints.remove(constraint);
         }
         for variable in self.removed_variables.iter().map(|&(j, _)| j) {
-            self.bounds.remove(&(variable, BoundDirection::Lower));
-            self.bounds.remove(&(variable, BoundDirection::Upper));
+            if !self.slacks_with_bounds.contains(&variable) {
+                self.bounds.remove(&(variable, BoundDirection::Lower));
+                self.bounds.remove(&(variable, BoundDirection::Upper));
+            }
 
             self.activity_bounds.remove(&(variable, BoundDirection::Lower));
             self.activity_bounds.remove(&(variable, BoundDirection::Upper));
-- 
2.43.0


From 2de0d588395640bbcfe8db31ea2c2dc51024e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:41 +0000
Subject: [PATCH 18/30] fix: describing an inconsistency recursed without end

Displaying an Inconsistency formatted the value itself again, so printing any
such import error overflowed the stack; its source was the error itself.
---
 src/io/error.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/error.rs b/src/io/error.rs
index 0176ae7..1b22744 100644
--- a/src/io/error.rs
+++ b/src/io/error.rs
@@ -226,12 +226,13 @@ impl Inconsistency {
 
 impl Display for Inconsistency {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "ProgramError: {}", self)
+        write!(f, "ProgramError: {}", self.description)
     }
 }
 
 impl Error for Inconsistency {
+    /// An inconsistency is not caused by another error.
     fn source(&self) -> Option<&(dyn Error + 'static)> {
-        Some(self)
+        None
     }
 }
-- 
2.43.0


From bdbbf56d494acd0981255c7afd1cde8a23c72d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:00 +0000
Subject: [PATCH 19/30] fix: numerals were misread or made the import panic

A number with a fraction was computed with wrapping arithmetic, so numbers
with more digits than fit were silently read as another value. An empty text
and text that starts with a multibyte character panicked; "-", "." and "1.+5"
were accepted and "+.5" was not.
---
 src/io/mps/number/parse.rs | 47 ++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 25 deletions(-)

diff --git a/src/io/mps/number/parse.rs b/src/io/mps/number/parse.rs
index 60e3a58..283d674 100644
--- a/src/io/mps/number/parse.rs
+++ b/src/io/mps/number/parse.rs
@@ -78,36 +78,33 @@ impl TryFrom<&str> for Raw {
     type Error = ParseError;
 
     fn try_from(text: &str) -> Result<Self, Self::Error> {
-        let (has_minus, text) = match &text[0..1] {
-            "-" => (true, &text[1..]),
-            _ => (false, text),
+        let (has_minus, unsigned) = match text.strip_prefix('-') {
+            Some(rest) => (true, rest),
+            None => (false, text.strip_prefix('+').unwrap_or(text)),
         };
+        let (integer_part, mantissa_part) = unsigned.split_once('.').unwrap_or((unsigned, ""));
 
-        let parse = |text: &str, number_part| {
-            if text.is_empty() {
-                Ok(0)
-            } else {
-                text.parse()
-                    .map_err(|error| ParseError::wrap_other(
-                        error,
-                        format!("Failed to parse {} \"{}\" as u64.", number_part, text),
-                    ))
-            }
-        };
+        let is_number = |part: &str| part.bytes().all(|byte| byte.is_ascii_digit());
+        let has_digits = !integer_part.is_empty() || !mantissa_part.is_empty();
+        if !has_digits || !is_number(integer_part) || !is_number(mantissa_part) {
+            return Err(ParseError::new(format!("Failed to parse \"{}\" as a decimal number.", text)));
+        }
 
-        let (integer, decimal_steps_from_right): (u64, _) = match text.find('.') {
-            None => (parse(text, "entire value")?, 0),
-            Some(index) => {
-                let from_right = u32::try_from(text.len() - index - 1)
-                    .expect("It wouldn't make sense for the number text to be so large.");
+        // Zeros at the end don't change the value
+        let nr_kept = mantissa_part.trim_end_matches('0').len().max(1).min(mantissa_part.len());
+        let mantissa_part = &mantissa_part[..nr_kept];
 
-                let integer_part = parse(&text[0..index], "integer part")?;
-                let mantissa_part = parse(&text[(index + 1)..], "mantissa part")?;
+        let too_large = || ParseError::new(format!("Number \"{}\" has too many digits.", text));
+        let integer = integer_part.bytes().chain(mantissa_part.bytes())
+            .try_fold(0_u64, |total, byte| {
+                total.checked_mul(10)?.checked_add(u64::from(byte - b'0'))
+            })
+            .ok_or_else(too_large)?;
+        let decimal_steps_from_right = u32::try_from(mantissa_part.len())
+            .ok()
+            .filter(|&steps| 10_u64.checked_pow(steps).is_some())
+            .ok_or_else(too_large)?;
 
-                (integer_part * 10_u64.pow(from_right) + mantissa_part, from_right)
-            },
-        };
-        
         let sign = match (has_minus, integer) {
             (_, 0) => Sign::Zero,
             (false, _) => Sign::Positive,
-- 
2.43.0


From c80ac0a2bef725e6381cb91ef5d7ba1443d448a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 20/30] fix: row types and section names were matched by their
 first characters

A row of type "LX" was read as one of type L, and "ROWSX" after an OBJSENSE
section as ROWS; a multibyte character there or in the first line panicked.
---
 src/io/mps/parse/mod.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index ee371c3..614e695 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -175,20 +175,15 @@ fn parse_program_name<'a, CR: ColumnRetriever<'a>>(
     match location {
         None => Err(ParseError::new("No line to read, is the file empty?")),
         Some((number, line)) => {
-            if line.len() < NAME.len() {
-                return Err(ParseError::with_location("Line too short.", (number, line)));
-            }
-
-            let expected_name_string = &line[0..NAME.len()];
-            if expected_name_string == NAME {
-                let name = CR::two_or_three(&line[NAME.len()..])
+            if let Some(line_after_name) = line.strip_prefix(NAME) {
+                let name = CR::two_or_three(line_after_name)
                     .map_err(|e| e.wrap(format!("Could not read program name \
                     from line {}. Ths line looked like \"{}\"", number, line)))?[0];
                 Ok(name.to_string())
             } else {
                 Err(ParseError::with_location(
                     format!(
-                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, expected_name_string,
+                        "Expected a \"{}\" indicator, found \"{}\" instead", NAME, line,
                     ),
                     (number, line),
                 ))
@@ -225,7 +220,7 @@ fn parse_objsense_section<'a, L: Iterator<Item = FileLocation<'a>>>(
                         None => Err(ParseError::new("Program can't end in the OBJSENSE section.")),
                         Some((number, line)) => {
                             // Throw away the next line, who's contents are "ROWS", check to be sure
-                            if !matches!(lines.next(), Some((_, line)) if line.starts_with("ROWS")) {
+                            if !matches!(lines.next(), Some((_, line)) if line.trim_end() == "ROWS") {
                                 return Err(ParseError::new("Expected the ROWS section next."));
                             }
 
@@ -821,7 +816,7 @@ impl FromStr for RowType {
     ///
     /// Any `String` slices not equal to either `N`, `L`, `E` or `G` will fair to be parsed.
     fn from_str(word: &str) -> Result<RowType, Self::Err> {
-        match &word[0..1] {
+        match word.trim() {
             "N" => Ok(RowType::Cost),
             "L" => Ok(RowType::Constraint(ConstraintRelation::Less)),
             "E" => Ok(RowType::Constraint(ConstraintRelation::Equal)),
-- 
2.43.0


From c6c412ae5ac22483981b75c948c85967af2dc0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 21/30] fix: fixed format lines were read only when padded to
 full width

A value or a second pair that ended before the last column of its field was
rejected or silently dropped, a short bound line panicked, and so did a
multibyte character across a column boundary. Fields are now read up to the
end of the line, without the blanks around them, and a fifth field without a
sixth is an error.
---
 src/io/mps/parse/fixed.rs | 106 +++++++++++++-------------------------
 1 file changed, 36 insertions(+), 70 deletions(-)

diff --git a/src/io/mps/parse/fixed.rs b/src/io/mps/parse/fixed.rs
index 32f08d2..78dcc68 100644
--- a/src/io/mps/parse/fixed.rs
+++ b/src/io/mps/parse/fixed.rs
@@ -41,95 +41,61 @@ impl<'a> ColumnRetriever<'a> for Fixed {
     }
 
     fn one_and_two(line: &str) -> ParseResult<[&str; 2]> {
-        if line.len() > FIELDS[2].start {
-            let type_text = &line[FIELDS[1].clone()];
-
-            let name_field_end = FIELDS[2].end.min(line.len());
-            let name = line[FIELDS[2].start..name_field_end].trim_end();
-            if name.is_empty() {
-                Err(ParseError::new("Empty row name."))
-            } else {
-                Ok([type_text, name])
-            }
+        let name = field(line, 2)?;
+        if name.is_empty() {
+            Err(ParseError::new("Empty row name."))
         } else {
-            Err(ParseError::new("Line is too short."))
+            Ok([field(line, 1)?, name])
         }
     }
 
     fn is_column_marker_line(line: &'a str) -> ParseResult<ColumnLineContent<'a, Self::RestOfLine>> {
-        if line.len() >= FIELDS[4].end {
-            if &line[FIELDS[3].clone()] == COLUMN_SECTION_MARKER {
-                if line.len() >= FIELDS[5].end {
-                    Ok(ColumnLineContent::Marker([&line[FIELDS[5].clone()]]))
-                } else {
-                    Err(ParseError::new("Line is too short to be a marker line."))
-                }
-            } else {
-                Ok(ColumnLineContent::Data([
-                    line[FIELDS[2].clone()].trim_end(),
-                    line[FIELDS[3].clone()].trim_end(),
-                    line[FIELDS[4].clone()].trim_start(),
-                ], &line[FIELDS[4].end..]))
-            }
+        if field(line, 3)? == COLUMN_SECTION_MARKER {
+            Ok(ColumnLineContent::Marker([field(line, 5)?]))
         } else {
-            Err(ParseError::new("Line is too short."))
+            let (content, rest_of_line) = Self::two_through_four(line)?;
+            Ok(ColumnLineContent::Data(content, rest_of_line))
         }
     }
 
     fn two_through_four(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[4].end {
-            Ok(([
-                line[FIELDS[2].clone()].trim_end(),
-                line[FIELDS[3].clone()].trim_end(),
-                line[FIELDS[4].clone()].trim_start(),
-            ], &line[FIELDS[4].end..]))
-        } else {
-            Err(ParseError::new("Line is too short."))
-        }
+        Ok(([field(line, 2)?, field(line, 3)?, field(line, 4)?], line))
     }
 
-    fn five_and_six(line_after_first_four: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
-        let relative_field_six_end = FIELDS[6].end - FIELDS[4].end;
-        let result = if line_after_first_four.len() >= relative_field_six_end {
-            let (five_start, five_end) = (FIELDS[5].start - FIELDS[4].end, FIELDS[5].end - FIELDS[4].end);
-            let (six_start, six_end) = (FIELDS[6].start - FIELDS[4].end, FIELDS[6].end - FIELDS[4].end);
-
-            let five = line_after_first_four[five_start..five_end].trim_end();
-            let six = line_after_first_four[six_start..six_end].trim_start();
-            if !five.is_empty() && !six.is_empty() {
-                Some([
-                    five,
-                    six,
-                ])
-            } else { None }
-        } else { None };
-
-        Ok(result)
+    fn five_and_six(line: Self::RestOfLine) -> ParseResult<Option<[&'a str; 2]>> {
+        match (field(line, 5)?, field(line, 6)?) {
+            ("", "") => Ok(None),
+            ("", _) | (_, "") => Err(
+                ParseError::new("Line has only one of the fifth and the sixth element")
+            ),
+            (five, six) => Ok(Some([five, six])),
+        }
     }
 
     fn one_through_three(line: &'a str) -> ParseResult<([&'a str; 3], Self::RestOfLine)> {
-        if line.len() >= FIELDS[3].start {
-            let type_text = &line[FIELDS[1].clone()];
-            let name = line[FIELDS[2].clone()].trim_end();
-            let column = line[FIELDS[3].clone()].trim_end();
-
-            let rest = &line[FIELDS[3].end..];
+        Ok(([field(line, 1)?, field(line, 2)?, field(line, 3)?], line))
+    }
 
-            Ok(([type_text, name, column], rest))
-        } else {
-            Err(ParseError::new("Line is too short."))
+    fn four(line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
+        match field(line, 4)? {
+            "" => Err(ParseError::new("Line doesn't contain another value, it's too short.")),
+            value_text => Ok([value_text]),
         }
     }
+}
 
-    fn four(rest_of_line: Self::RestOfLine) -> ParseResult<[&'a str; 1]> {
-        let end_of_column = FIELDS[4].end - FIELDS[3].end;
-        if rest_of_line.len() >= end_of_column {
-            let start_of_column = FIELDS[4].start - FIELDS[3].end;
-            let value_text = rest_of_line[start_of_column..end_of_column].trim_start();
-            Ok([value_text])
-        } else {
-            Err(ParseError::new("Line doesn't contain another value, it's too short."))
-        }
+/// Read a field, without the blanks around it.
+///
+/// A field that starts after the end of the line is empty.
+fn field(line: &str, number: usize) -> ParseResult<&str> {
+    let Range { start, end } = FIELDS[number];
+
+    if start >= line.len() {
+        Ok("")
+    } else {
+        line.get(start..end.min(line.len()))
+            .map(str::trim)
+            .ok_or_else(|| ParseError::new("A multibyte character crosses the start or end of a column."))
     }
 }
 
-- 
2.43.0


From cd4432c177de46750ba79bcb1b2e65e04cfd3229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 22/30] fix: blanks at the end of a line made a well-formed
 file invalid

A section header followed by blanks was not recognised, and a line with only
blanks was read as an entry.
---
 src/io/mps/parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 614e695..0f9c569 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -104,7 +104,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 fn into_lines<'a>(text: &'a str) -> impl Iterator<Item = FileLocation<'a>> + 'a {
     text.lines()
         .enumerate()
-        .map(|(number, line)| (number + 1, line)) // Count from 1
+        .map(|(number, line)| (number + 1, line.trim_end())) // Count from 1
         .filter(|(_, line)| !line.trim_start().starts_with(COMMENT_INDICATOR))
         .filter(|(_, line)| !line.is_empty())
 }
-- 
2.43.0


From 79cc4349d489834a5e54d4293543567377ef8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 23/30] fix: columns or costs that are declared twice were
 accepted

Entries of a column that are not next to each other became two columns of the
same name, and a second cost value for a column made all costs after it zero.
---
 src/io/mps/parse/mod.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 0f9c569..584c7df 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -59,7 +59,7 @@ fn parse<'a, F: Parse, CR: ColumnRetriever<'a>>(
 
     let (columns, cost_values, next_section) =
         parse_column_section::<_, CR, _>(&mut lines, &cost_row_name, &row_index)?;
-    let column_index = build_column_index(&columns);
+    let column_index = build_column_index(&columns)?;
 
     let (rhss, next_section) = if next_section == Section::Rhs {
         parse_optional_section::<_, CR, _, _, 2>(&mut lines, [Section::Ranges, Section::Bounds], &row_index)?
@@ -413,6 +413,9 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         match row_map.get(row_name) {
                             None => if row_name == cost_row_name {
                                 let column_index = collector.len();
+                                if matches!(cost_values_collector.last(), Some(&(j, _)) if j == column_index) {
+                                    return Err(Inconsistency::new("Duplicate cost value for a column").into());
+                                }
                                 cost_values_collector.push((column_index, value))
                             } else {
                                 return Err(Inconsistency::new(format!("Row \"{}\" not known.", row_name)).into());
@@ -497,16 +500,19 @@ fn save_to_column_collector<F>(
 /// # Note
 ///
 /// This assignment is not a specific order.
-fn build_column_index<F>(columns: &[Column<F>]) -> HashMap<&str, usize> {
-    debug_assert_eq!(
-        columns.iter().map(|column| column.name.as_str()).collect::<HashSet<_>>().len(),
-        columns.len(),
-    );
+///
+/// # Errors
+///
+/// If the entries of a column are not next to each other, the MPS is considered inconsistent.
+fn build_column_index<F>(columns: &[Column<F>]) -> Result<HashMap<&str, usize>, Inconsistency> {
+    let mut index = HashMap::with_capacity(columns.len());
+    for (j, column) in columns.iter().enumerate() {
+        if index.insert(column.name.as_str(), j).is_some() {
+            return Err(Inconsistency::new(format!("Duplicate column name {} found.", column.name)));
+        }
+    }
 
-    columns.iter()
-        .enumerate()
-        .map(|(index, column)| (column.name.as_str(), index))
-        .collect()
+    Ok(index)
 }
 
 trait ListedInGroup {
-- 
2.43.0


From c41b062a2ce52f6ba6df73cd16d99ab0ec24b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 24/30] fix: unsupported bounds and repeated markers panicked

A semi-continuous bound reached an unimplemented!() and a marker that doesn't
change the variable type a debug assertion; both are errors now.
---
 src/io/mps/parse/mod.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index 584c7df..a168505 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -381,7 +381,6 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                         &mut column_to_be_saved, &mut column_collector, &mut collector, active_variable_type,
                     )?;
 
-                    // TODO(CORRECTNESS): Err when the type doesn't actually change?
                     let previous_variable_type = active_variable_type;
                     active_variable_type = match marker_text {
                         START_OF_INTEGER => VariableType::Integer,
@@ -390,7 +389,11 @@ fn parse_column_section<'a, F: Parse, CR: ColumnRetriever<'a>, L: Iterator<Item
                             format!("Marker type \"{}\" unknown.", marker_text), (number, line),
                         ).into()),
                     };
-                    debug_assert_ne!(previous_variable_type, active_variable_type);
+                    if active_variable_type == previous_variable_type {
+                        return Err(ParseError::with_location(
+                            "Marker doesn't change the variable type.", (number, line),
+                        ).into());
+                    }
                 },
                 ColumnLineContent::Data([column_name, row_name, value_text], rest_of_line) => {
                     // Read the name of the group and save the group if necessary
@@ -742,7 +745,7 @@ fn parse_bound_line<'a, F: Parse, CR: ColumnRetriever<'a>>(
                 _ => unreachable!(),
             }
         },
-        "SC" => unimplemented!(),
+        "SC" => return Err(ParseError::new("Semi-continuous bounds are not supported.").into()),
         _ => return Err(ParseError::new(format!("Bound type \"{}\" unknown.", bound_type_text)).into()),
     };
 
-- 
2.43.0


From c4fb537bae8f79fad337e6c00b9b684a4c7c202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 25/30] fix: contradicting bounds on a variable were accepted

The documented error for a variable without feasible values was never given.
---
 src/io/mps/convert.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index bf1b103..1189447 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -178,6 +178,13 @@ fn process_bounds<FI, FO: From<FI> + Zero + One + Ord + Clone>(
 
     fill_in_default_lower_bounds(variable_info, needs_default_lower_bound);
 
+    let any_empty = variable_info.iter().any(|variable| {
+        matches!((&variable.lower_bound, &variable.upper_bound), (Some(lower), Some(upper)) if lower > upper)
+    });
+    if any_empty {
+        return Err(Inconsistency::new("A variable has a lower bound greater than its upper bound."));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 4ea95c7c688a4d4744ec8a955a0e872428249657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 26/30] fix: zero coefficients were stored in the sparse
 constraint matrix

A coefficient that is written as zero in a file violates the invariant of
sparse columns; e.g. presolving divided by it.
---
 src/io/mps/convert.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 1189447..1e9c079 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -122,7 +122,11 @@ fn compute_variable_info<FI, FO: From<FI> + NonZero + Zero + One + Ord + Display
     process_bounds(&mut info, bounds)?;
     let (values, names): (Vec<_>, Vec<_>) = values_names.into_iter()
         .map(|(collection, names)| {
-            (collection.into_iter().map(|(i, v)| (i, v.into())).collect(), names)
+            let values = collection.into_iter()
+                .map(|(i, v)| (i, v.into()))
+                .filter(|(_, v): &(usize, FO)| v.is_not_zero())
+                .collect();
+            (values, names)
         })
         .unzip();
 
-- 
2.43.0


From b584d3819f1ccbc325950fa841d2af7fd36f276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:47 +0000
Subject: [PATCH 27/30] fix: a range on a row without a right-hand side was not
 applied

The sign and side of a range were only taken into account when the row had an
explicit right-hand side; the default of zero left a range on the wrong side of
zero, or a negative one. A row with two equal right-hand sides and a range was
read wrongly as well.
---
 src/io/mps/convert.rs | 42 +++++++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/src/io/mps/convert.rs b/src/io/mps/convert.rs
index 1e9c079..1a635d1 100644
--- a/src/io/mps/convert.rs
+++ b/src/io/mps/convert.rs
@@ -452,7 +452,6 @@ fn compute_constraint_types<FI: Zero + PartialEq, FO: From<FI>>(
 ///
 /// When there is a trivial infeasibility due to multiple equality bounds being specified with
 /// different values.
-#[allow(unreachable_patterns)]
 fn compute_b<
     OFI: Sub<Output=OFI> + Abs + PartialOrd + Zero + Clone,
     OFO: From<OFI> + Zero + Abs + PartialOrd + Element + Display,
@@ -475,27 +474,8 @@ where
     let mut b: Vec<Option<OFO>> = vec![None; rows.len()];
     for (i, value) in rhss.into_iter().flat_map(|rhs| rhs.values.into_iter()) {
         match &mut b[i] {
-            None => match &mut constraints[i] {
-                RangedConstraintRelation::Range(range) => {
-                    let range_sign = range.cmp(&&mut OFO::zero());
-                    if range < &mut OFO::zero() {
-                        *range = -&*range;
-                    }
-                    let value = value.into();
-                    let bound  = match (rows[i].constraint_type, range_sign) {
-                        (ConstraintRelation::Greater, _) => value + &*range,
-                        (ConstraintRelation::Less, _) => value,
-                        (ConstraintRelation::Equal, Ordering::Greater | Ordering::Equal) => value + &*range,
-                        (ConstraintRelation::Equal, Ordering::Less | Ordering::Equal) => value,
-                    };
-                    b[i] = Some(bound);
-                },
-                _ => b[i] = Some(value.into()),
-            }
+            None => b[i] = Some(value.into()),
             Some(current) => {
-                // There can be at most one rhs value for each row that has a range.
-                debug_assert!(!matches!(constraints[i], RangedConstraintRelation::Range(_)));
-
                 let converted: OFO = value.into();
                 match rows[i].constraint_type {
                     ConstraintRelation::Equal => if &converted != current {
@@ -514,8 +494,24 @@ where
         }
     }
 
-    // Substitute the default value.
-    let b = b.into_iter().map(|value| value.unwrap_or_else(OFO::zero)).collect();
+    // Substitute the default value and process the ranges.
+    let b = b.into_iter().enumerate()
+        .map(|(i, value)| {
+            let value = value.unwrap_or_else(OFO::zero);
+            if let RangedConstraintRelation::Range(range) = &mut constraints[i] {
+                let is_negative = *range < OFO::zero();
+                if is_negative {
+                    *range = -&*range;
+                }
+                match (rows[i].constraint_type, is_negative) {
+                    (ConstraintRelation::Greater, _) | (ConstraintRelation::Equal, false) => value + &*range,
+                    (ConstraintRelation::Less, _) | (ConstraintRelation::Equal, true) => value,
+                }
+            } else {
+                value
+            }
+        })
+        .collect();
     Ok(DenseVector::new(b, nr_rows))
 }
 
-- 
2.43.0


From ce62b2960f2cf019410dc575629cf73688acae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:56 +0000
Subject: [PATCH 28/30] fix: a file that ends after the ROWS section was read
 on

ENDATA in place of COLUMNS was taken as the start of the columns.
---
 src/io/mps/parse/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/mps/parse/mod.rs b/src/io/mps/parse/mod.rs
index a168505..9098e30 100644
--- a/src/io/mps/parse/mod.rs
+++ b/src/io/mps/parse/mod.rs
@@ -278,8 +278,10 @@ fn parse_row_section<'a, CR: ColumnRetriever<'a>, L: Iterator<Item = FileLocatio
             }
         } else {
             // Section has ended.
-            try_parse_next_section(line, [Section::Columns])?;
-            return Ok((cost_row_name, collector));
+            return match try_parse_next_section(line, [Section::Columns])? {
+                Section::Columns => Ok((cost_row_name, collector)),
+                _ => Err(ParseError::new("The columns section is missing.")),
+            };
         }
     }
 
-- 
2.43.0


From 8b0b0fa640ab0d0eac8cf04499f32f2ee92803f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 29/30] fix: separate all entries when displaying a sparse
 vector

---
 src/data/linear_algebra/vector/sparse.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index b57864b..282891d 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -389,11 +389,11 @@ where
 impl<F: SparseElement<C>, C: SparseComparator> Display for Sparse<F, C> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "[")?;
-        for (index, value) in &self.data {
-            write!(f, "({} {})", index, value)?;
-            if *index < self.data.len() - 1 {
+        for (data_index, (index, value)) in self.data.iter().enumerate() {
+            if data_index > 0 {
                 write!(f, ", ")?;
             }
+            write!(f, "({} {})", index, value)?;
         }
         write!(f, "]")
     }
-- 
2.43.0


From 91ea79c53317b2522e01a81a527da1d1b6eafeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:55 +0000
Subject: [PATCH 30/30] fix: accept problems without rows with debug assertions
 on

Vectors of length zero, permutations of nothing and removing all rows of
a basis inverse occur when all rows are redundant (or there are none); with
debug assertions on, solving such problems panicked.
---
 .../tableau/inverse_maintenance/carry/basis_inverse_rows.rs     | 2 +-
 .../inverse_maintenance/carry/lower_upper/permutation/full.rs   | 2 +-
 src/data/linear_algebra/vector/dense.rs                         | 2 --
 src/data/linear_algebra/vector/sparse.rs                        | 1 -
 4 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
index dfb2547..4b29106 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs
@@ -215,7 +215,7 @@ where
 {
     fn remove_basis_part(&mut self, indices: &[usize]) {
         let old_m = self.m();
-        debug_assert!(indices.len() < old_m);
+        debug_assert!(indices.len() <= old_m);
 
         remove_indices(&mut self.rows, indices);
         // Remove the columns
diff --git a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
index c6c653e..30baebd 100644
--- a/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
+++ b/src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs
@@ -25,7 +25,7 @@ impl Full {
     /// Computes the inverse by sorting.
     pub fn new(forward: Vec<usize>) -> Self {
         debug_assert_eq!(forward.iter().collect::<HashSet<_>>().len(), forward.len());
-        debug_assert!(*forward.iter().max().unwrap() < forward.len());
+        debug_assert!(forward.iter().all(|&i| i < forward.len()));
 
         let mut backward = forward.iter()
             .enumerate()
diff --git a/src/data/linear_algebra/vector/dense.rs b/src/data/linear_algebra/vector/dense.rs
index 10d638a..b5c772d 100644
--- a/src/data/linear_algebra/vector/dense.rs
+++ b/src/data/linear_algebra/vector/dense.rs
@@ -37,8 +37,6 @@ impl<F> Dense<F> {
     where
         F: Clone,
     {
-        debug_assert_ne!(len, 0);
-
         Self { data: vec![value; len], }
     }
 
diff --git a/src/data/linear_algebra/vector/sparse.rs b/src/data/linear_algebra/vector/sparse.rs
index 282891d..bca69a0 100644
--- a/src/data/linear_algebra/vector/sparse.rs
+++ b/src/data/linear_algebra/vector/sparse.rs
@@ -91,7 +91,6 @@ where
         debug_assert!(data.iter().all(|&(i, _)| i < len));
         debug_assert!(data.is_sorted_by_key(|&(i, _)| i));
         debug_assert!(data.iter().all(|(_, v)| v.borrow().is_not_zero()));
-        debug_assert_ne!(len, 0);
         debug_assert!(data.len() <= len);
 
         Self {
-- 
2.43.0

