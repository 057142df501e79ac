//! Generating standard form problems.
use num_traits::Zero;
use relp_num::NonZero;

use crate::prov::{R, Std, q, r};
use crate::rng::Rng;

fn entry(g: &mut Rng, style: usize) -> R {
    match style {
        0 => r(g.int(-1, 1)),
        1 => r(g.int(-3, 3)),
        2 => r(g.int(0, 4)),
        3 => q(g.int(-6, 6), g.int(1, 4)),
        _ => r(g.int(-9, 9)),
    }
}

/// A random problem with `m` rows and `n` columns. About half of them are feasible by
/// construction; some rows are combinations of others; right-hand sides are often zero.
pub fn random(g: &mut Rng, m: usize, n: usize) -> Std {
    let style = g.below(5);
    let density = *g.pick(&[30u64, 50, 70, 100]);
    let mut rows: Vec<Vec<R>> = (0..m).map(|_| (0..n).map(|_| {
        if g.chance(density) { entry(g, style) } else { R::zero() }
    }).collect()).collect();
    // identity columns somewhere, as slack columns would be
    let slack_share = *g.pick(&[0u64, 0, 40, 100]);
    if n > 0 {
        for i in 0..m {
            if g.chance(slack_share) {
                let j = g.below(n);
                for k in 0..m { rows[k][j] = R::zero(); }
                rows[i][j] = if g.chance(80) { r(1) } else { r(-1) };
            }
        }
    }
    let feasible = g.chance(75);
    let mut rhs: Vec<R>;
    if feasible {
        let zero = *g.pick(&[20u64, 50, 80, 100]);
        let x: Vec<R> = (0..n).map(|_| if g.chance(zero) { R::zero() } else { q(g.int(0, 5), g.int(1, 2)) }).collect();
        rhs = rows.iter().map(|row| row.iter().zip(&x).map(|(a, b)| a * b).sum()).collect();
    } else {
        let z = *g.pick(&[0u64, 50]);
        rhs = (0..m).map(|_| if g.chance(z) { R::zero() } else { r(g.int(-4, 8)) }).collect();
    }
    // dependent rows
    if m >= 2 && g.chance(35) {
        let k = 1 + g.below(m.min(3) - 0).min(m - 2);
        for _ in 0..k {
            let t = g.below(m);
            let (a, b) = (g.below(m), g.below(m));
            if t == a || t == b { continue; }
            let (fa, fb) = (r(g.int(-2, 2)), r(g.int(-2, 2)));
            let new: Vec<R> = (0..n).map(|j| &fa * &rows[a][j] + &fb * &rows[b][j]).collect();
            let mut nb = &fa * &rhs[a] + &fb * &rhs[b];
            if g.chance(10) { nb += r(1); }
            rows[t] = new;
            rhs[t] = nb;
        }
    }
    for i in 0..m {
        if rhs[i] < R::zero() {
            rhs[i] = -&rhs[i];
            for v in &mut rows[i] { *v = -&*v; }
        }
    }
    let cstyle = g.below(5);
    let cost: Vec<R> = (0..n).map(|_| match cstyle {
        0 => r(g.int(0, 5)),
        1 => r(g.int(-2, 2)),
        2 => q(g.int(-8, 12), g.int(1, 3)),
        3 => if g.chance(70) { R::zero() } else { r(g.int(-3, 3)) },
        _ => r(-g.int(0, 3)),
    }).collect();
    let cols = (0..n).map(|j| (0..m).map(|i| rows[i][j].clone()).collect()).collect();
    with_pivots(Std { m, cols, cost, rhs, pivots: vec![] })
}

/// Offer every unit column as a pivot, at most one for each row.
pub fn with_pivots(mut p: Std) -> Std {
    p.pivots.clear();
    for i in 0..p.m {
        if let Some(j) = (0..p.n()).find(|&j| unit_row(&p.cols[j]) == Some(i)) {
            p.pivots.push((i, j));
        }
    }
    p
}

fn unit_row(c: &[R]) -> Option<usize> {
    let nz: Vec<usize> = (0..c.len()).filter(|&i| c[i].is_not_zero()).collect();
    if nz.len() == 1 && c[nz[0]] == r(1) { Some(nz[0]) } else { None }
}

/// All slack: `A x + s = b` with `b >= 0`.
pub fn random_full(g: &mut Rng, m: usize, n: usize) -> Std {
    let mut p = random(g, m, n);
    p.pivots.clear();
    let mut slacks: Vec<usize> = (0..m).collect();
    if g.chance(50) { g.shuffle(&mut slacks); }
    let at_front = g.chance(30);
    let mut unit: Vec<(usize, Vec<R>)> = slacks.iter().map(|&i| {
        let mut c = vec![R::zero(); m];
        c[i] = r(1);
        (i, c)
    }).collect();
    let zero_cost = g.chance(70);
    let mut costs: Vec<R> = (0..m).map(|_| if zero_cost { R::zero() } else { r(g.int(-2, 3)) }).collect();
    if at_front {
        let old = std::mem::take(&mut p.cols);
        let oldc = std::mem::take(&mut p.cost);
        for (k, (i, c)) in unit.drain(..).enumerate() { p.pivots.push((i, k)); p.cols.push(c); }
        p.cost.append(&mut costs);
        p.cols.extend(old);
        p.cost.extend(oldc);
    } else {
        for (i, c) in unit.drain(..) { p.pivots.push((i, p.cols.len())); p.cols.push(c); }
        p.cost.append(&mut costs);
    }
    p.pivots.sort();
    p
}

/// Columns of a feasible basis (with `rhs` in its cone), if a few random tries find one.
pub fn feasible_basis(g: &mut Rng, p: &Std) -> Option<Vec<usize>> {
    if p.n() < p.m { return None; }
    for _ in 0..30 {
        let mut idx: Vec<usize> = (0..p.n()).collect();
        g.shuffle(&mut idx);
        idx.truncate(p.m);
        if let Some(x) = solve_square(p, &idx) {
            if x.iter().all(|v| v >= &R::zero()) { return Some(idx); }
        }
    }
    None
}

/// Solve `B x = rhs` by Gauss-Jordan (used for generating only).
pub fn solve_square(p: &Std, idx: &[usize]) -> Option<Vec<R>> {
    let m = p.m;
    let mut t: Vec<Vec<R>> = (0..m).map(|i| {
        let mut row: Vec<R> = idx.iter().map(|&j| p.cols[j][i].clone()).collect();
        row.push(p.rhs[i].clone());
        row
    }).collect();
    for c in 0..m {
        let piv = (c..m).find(|&i| t[i][c].is_not_zero())?;
        t.swap(c, piv);
        let d = t[c][c].clone();
        for v in &mut t[c] { *v = &*v / &d; }
        for i in 0..m {
            if i != c && t[i][c].is_not_zero() {
                let f = t[i][c].clone();
                for k in 0..=m {
                    let delta = &f * &t[c][k];
                    t[i][k] -= delta;
                }
            }
        }
    }
    Some((0..m).map(|i| t[i][m].clone()).collect())
}

fn from_rows(rows: &[&[i64]], den: i64, cost: &[(i64, i64)], rhs: &[i64]) -> Std {
    let m = rows.len();
    let n = rows[0].len();
    with_pivots(Std {
        m,
        cols: (0..n).map(|j| (0..m).map(|i| q(rows[i][j], den)).collect()).collect(),
        cost: cost.iter().map(|&(a, b)| q(a, b)).collect(),
        rhs: rhs.iter().map(|&v| r(v)).collect(),
        pivots: vec![],
    })
}

/// Textbook problems on which naive pivoting cycles, and other classics.
pub fn classics() -> Vec<Std> {
    let mut v = vec![];
    // Beale
    v.push(from_rows(&[
        &[25, -6000, -4, 900, 100, 0, 0],
        &[50, -9000, -2, 300, 0, 100, 0],
        &[0, 0, 100, 0, 0, 0, 100],
    ], 100, &[(-75, 100), (150, 1), (-2, 100), (6, 1), (0, 1), (0, 1), (0, 1)], &[0, 0, 1]));
    // Chvatal
    v.push(from_rows(&[
        &[5, -55, -25, 90, 10, 0, 0],
        &[5, -15, -5, 10, 0, 10, 0],
        &[10, 0, 0, 0, 0, 0, 10],
    ], 10, &[(-10, 1), (57, 1), (9, 1), (24, 1), (0, 1), (0, 1), (0, 1)], &[0, 0, 1]));
    // Kuhn
    v.push(from_rows(&[
        &[-2, -9, 1, 9, 1, 0, 0],
        &[1, 3, -1, -6, 0, 3, 0],
        &[6, 9, -3, -36, 0, 0, 3],
    ], 1, &[(-2, 1), (-3, 1), (1, 1), (12, 1), (0, 1), (0, 1), (0, 1)], &[0, 0, 2]));
    // Klee-Minty cubes
    for d in 2..=4usize {
        let mut rows: Vec<Vec<i64>> = vec![];
        let mut rhs = vec![];
        for i in 0..d {
            let mut row = vec![0; 2 * d];
            for j in 0..i { row[j] = 2 * 2i64.pow((i - j) as u32); }
            row[i] = 1;
            row[d + i] = 1;
            rows.push(row);
            rhs.push(5i64.pow(i as u32 + 1));
        }
        let refs: Vec<&[i64]> = rows.iter().map(|r| r.as_slice()).collect();
        let cost: Vec<(i64, i64)> = (0..2 * d).map(|j| if j < d { (-(2i64.pow((d - 1 - j) as u32)), 1) } else { (0, 1) }).collect();
        v.push(from_rows(&refs, 1, &cost, &rhs));
    }
    // assignment problems (degenerate, one redundant row)
    for k in 2..=3usize {
        let mut rows = vec![vec![0i64; k * k]; 2 * k];
        for a in 0..k { for b in 0..k { rows[a][a * k + b] = 1; rows[k + b][a * k + b] = 1; } }
        let refs: Vec<&[i64]> = rows.iter().map(|r| r.as_slice()).collect();
        let cost: Vec<(i64, i64)> = (0..k * k).map(|j| (((j * 7 + 3) % 5) as i64, 1)).collect();
        v.push(from_rows(&refs, 1, &cost, &vec![1; 2 * k]));
    }
    v
}

/// A highly degenerate problem: right-hand side zero in all rows but the last, which bounds the
/// sum.
pub fn degenerate(g: &mut Rng, m: usize, n: usize) -> Std {
    let mut p = random_full(g, m, n);
    for i in 0..m { p.rhs[i] = if i + 1 == m { r(g.int(0, 2)) } else { R::zero() }; }
    for c in &mut p.cost { if g.chance(60) { *c = r(g.int(-4, 1)); } }
    for &(_, j) in &p.pivots { p.cost[j] = R::zero(); }
    p
}

/// Cones on which the steepest edge rule with Bland's choice of the leaving variable comes back to a basis it has
/// visited: rows, columns, coefficients of the rows, costs (slacks not included).
const STEEPEST: &[(usize, usize, &[i64], &[i64])] = &[
    (3, 4, &[-113, 84, 79, 107, 2, -53, 68, -6, 46, -26, 7, -15], &[-72, -18, 98, 53]),
    (3, 5, &[1, 8, -8, 12, -2, 1, -8, 5, -8, 1, -7, 7, 12, 8, 14], &[-8, -6, -3, 5, 5]),
    (3, 5, &[10, 1, -17, -3, 7, -12, 3, 6, 0, -6, -11, 6, -7, -7, -11], &[1, -5, -2, 3, 6]),
    (3, 5, &[1, 15, -10, 14, -3, -13, 10, 18, 11, 20, 11, 6, -9, 10, -3], &[-12, -21, 6, -8, 5]),
    (3, 5, &[41, 1, -2, -2, -3, -46, -31, 19, 35, 10, -24, 50, 17, -11, -3], &[-13, -37, -6, 9, 1]),
    (3, 5, &[-19, -40, 49, 52, 72, -38, 26, -52, 16, 27, 17, 50, -11, -27, -60], &[-17, -53, 31, 28, 14]),
    (3, 5, &[16, 23, -50, 13, -35, 57, -24, -4, -3, -7, 78, -76, 22, -45, -33], &[-60, -6, -4, 16, 21]),
    (3, 5, &[-53, 28, 130, 48, 43, 25, -113, -65, 107, 20, -1, 110, 62, -108, -20], &[-55, -51, 55, 16, 35]),
    (3, 5, &[114, -170, 1, 125, -81, 90, 72, -53, 158, 139, -41, -26, 30, -5, -20], &[-105, 111, -70, 47, 131]),
    (3, 5, &[-179, 35, -108, 117, 120, -106, 80, -72, 45, 21, 117, -73, 162, 140, 92], &[36, -136, 98, 102, -127]),
    (4, 3, &[11, 2, -6, -9, 1, -1, -7, 3, -1, 5, 15, -13], &[-14, -9, 4]),
    (4, 3, &[2, 5, -5, 1, -3, -2, 3, -4, -3, -10, -1, 16], &[-8, -9, 9]),
    (4, 3, &[5, 2, -3, -5, 5, -7, -1, 4, -2, -7, -15, 17], &[-4, -4, 2]),
    (4, 3, &[1, -2, 7, -21, 9, -8, 4, -3, -5, 9, -2, -1], &[-11, 2, -10]),
    (4, 3, &[1, 45, -10, 37, -53, -82, -86, -55, 85, 29, -6, -16], &[-20, -46, -8]),
    (4, 3, &[34, -56, -75, 15, 90, -37, 9, -1, -5, 124, 105, -142], &[-79, -136, 19]),
    (4, 4, &[-5, 1, -9, 6, 4, 1, -8, 5, -6, 1, 2, 2, 2, 11, 2, 8], &[-7, -9, -9, -3]),
    (4, 4, &[-9, -8, 14, -3, 14, -11, 5, 13, -4, 7, -11, 0, -10, 8, 0, -3], &[3, -8, -15, 9]),
    (4, 4, &[1, -3, -15, 4, 1, -10, 6, -2, 1, 0, -10, 2, 10, -5, -5, -11], &[-8, -4, -8, 12]),
    (4, 4, &[-3, 9, 1, -1, 9, -4, 4, -5, -7, 2, -18, 13, -5, 1, 10, -3], &[-7, 8, -7, 2]),
    (4, 4, &[-1, -9, 3, -4, 11, 3, -17, 2, 10, -8, 2, -5, -18, 8, 8, 13], &[-10, 2, -8, 7]),
    (4, 4, &[9, -2, 0, -2, 4, -3, -3, 5, -18, 12, -14, 10, -2, 0, 12, -4], &[-11, 6, 2, -9]),
];
pub fn steepest_cones() -> Vec<Std> {
    STEEPEST.iter().map(|&(m, n, a, c)| {
        let mut cols: Vec<Vec<R>> = (0..n).map(|j| (0..m).map(|i| r(a[i * n + j])).collect()).collect();
        let mut cost: Vec<R> = c.iter().map(|&v| r(v)).collect();
        for i in 0..m {
            cols.push((0..m).map(|k| r((k == i) as i64)).collect());
            cost.push(r(0));
        }
        with_pivots(Std { m, cols, cost, rhs: vec![r(0); m], pivots: vec![] })
    }).collect()
}
