//! Histories of basis changes on the two basis inverse representations.
//! Modes: `random <count>`, `replay <plan file>` (behaviours generated from BasisInverseGen).
use harness::json::{self, J, Out};
use harness::prov::{Col, R, q, r, to_col};
use harness::rng::Rng;
use harness::run;
use num_traits::{One, Zero};
use relp::algorithm::two_phase::matrix_provider::column::Column;
use relp::algorithm::two_phase::tableau::inverse_maintenance::ColumnComputationInfo;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::{BasisInverse, RemoveBasisPart};
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::basis_inverse_rows::BasisInverseRows;
use relp::algorithm::two_phase::tableau::inverse_maintenance::carry::lower_upper::LUDecomposition;
use relp_num::NonZero;

struct H<B> { bi: B, cols: Vec<Vec<R>>, ev: Vec<J> }

fn ev(name: &str, mut rest: Vec<(&'static str, J)>) -> J {
    let mut v = vec![("ev", json::s(name))];
    v.append(&mut rest);
    J::O(v)
}

impl<B> H<B>
where
    B: BasisInverse<F = R>,
    R: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Column<R>,
{
    fn identity(m: usize) -> Self {
        let cols = (0..m).map(|i| (0..m).map(|k| if i == k { R::one() } else { R::zero() }).collect()).collect();
        Self { bi: B::identity(m), cols, ev: vec![ev("identity", vec![("m", J::I(m as i64))])] }
    }
    fn invert(cols: Vec<Vec<R>>) -> Self {
        let c: Vec<Col> = cols.iter().map(|c| to_col(c)).collect();
        let bi = B::invert(c.into_iter());
        let e = vec![ev("invert", vec![("cols", json::mat(&cols))])];
        Self { bi, cols, ev: e }
    }
    fn refactor(&mut self) {
        let c: Vec<Col> = self.cols.iter().map(|c| to_col(c)).collect();
        self.bi = B::invert(c.into_iter());
        self.ev.push(ev("invert", vec![("cols", json::mat(&self.cols))]));
    }
    fn left(&mut self, v: &[R]) {
        let c = to_col(v);
        let out = self.bi.left_multiply_by_basis_inverse(c.iter()).into_column();
        self.ev.push(ev("left", vec![("v", json::vec(v)), ("out", json::sparse(&out))]));
    }
    fn right(&mut self, v: &[R]) {
        let c = to_col(v);
        if c.0.is_empty() { return; }
        let out = self.bi.right_multiply_by_basis_inverse(c.iter());
        self.ev.push(ev("right", vec![("v", json::vec(v)), ("out", json::sparse(&out))]));
    }
    fn element(&mut self, i: usize, v: &[R]) {
        let c = to_col(v);
        let out = self.bi.generate_element(i, c.iter());
        self.ev.push(ev("element", vec![("i", J::I(i as i64)), ("v", json::vec(v)), ("out", json::opt(&out))]));
    }
    fn row(&mut self, i: usize) {
        let out = self.bi.basis_inverse_row(i);
        self.ev.push(ev("row", vec![("i", J::I(i as i64)), ("out", json::sparse(&out)), ("m", J::I(self.bi.m() as i64))]));
    }
    /// Replace column `row`; answers whether that was possible.
    fn change(&mut self, row: usize, v: &[R]) -> bool {
        let c = to_col(v);
        let info = self.bi.left_multiply_by_basis_inverse(c.iter());
        if info.column().iter().all(|(i, x)| i != row || x.is_zero()) { return false; }
        let out = self.bi.change_basis(row, info);
        self.cols[row] = v.to_vec();
        self.ev.push(ev("change", vec![("r", J::I(row as i64)), ("v", json::vec(v)), ("out", json::sparse(&out))]));
        true
    }
}

/// Removal of rows, for the representations that offer it.
type Removal<B> = Option<fn(&mut B, &[usize])>;

impl<B: BasisInverse<F = R>> H<B>
where
    R: relp::algorithm::two_phase::tableau::inverse_maintenance::ops::Column<R>,
{
    /// Remove some of the positions whose columns are zero in all other rows (as those of
    /// artificial variables are).
    fn remove(&mut self, f: fn(&mut B, &[usize]), g: &mut Rng) {
        let m = self.cols.len();
        let mut s: Vec<usize> = (0..m).filter(|&i| (0..m).all(|k| k == i || self.cols[i][k].is_zero())).collect();
        s.retain(|_| g.chance(60));
        if s.len() == m { s.remove(g.below(m)); }
        if s.is_empty() { return; }
        f(&mut self.bi, &s);
        let kept: Vec<usize> = (0..m).filter(|i| !s.contains(i)).collect();
        self.cols = kept.iter().map(|&i| kept.iter().map(|&k| self.cols[i][k].clone()).collect()).collect();
        self.ev.push(ev("remove", vec![("rows", json::ints(&s)), ("m", J::I(self.bi.m() as i64))]));
    }
}

fn vector(g: &mut Rng, m: usize, style: usize) -> Vec<R> {
    let density = *g.pick(&[25u64, 40, 60, 100]);
    (0..m).map(|_| if !g.chance(density) { R::zero() } else {
        match style { 0 => r(g.int(-1, 1)), 1 => r(g.int(-3, 3)), 2 => q(g.int(-5, 5), g.int(1, 3)), _ => r(g.int(0, 2)) }
    }).collect()
}

fn nonsingular(cols: &[Vec<R>]) -> bool {
    let m = cols.len();
    let mut t = cols.to_vec();
    for c in 0..m {
        let Some(p) = (c..m).find(|&k| t[k][c].is_not_zero()) else { return false };
        t.swap(c, p);
        for k in c + 1..m {
            if t[k][c].is_not_zero() {
                let f = &t[k][c] / &t[c][c];
                for i in c..m { let d = &f * &t[c][i]; t[k][i] -= d; }
            }
        }
    }
    true
}

fn start_matrix(g: &mut Rng, m: usize, style: usize) -> Vec<Vec<R>> {
    loop {
        let kind = g.below(4);
        let mut cols: Vec<Vec<R>> = match kind {
            // permuted triangular
            0 => (0..m).map(|j| {
                let mut v = vector(g, m, style);
                for i in 0..m { if i > j { v[i] = R::zero() } }
                v[j] = if g.chance(60) { r(1) } else { r(*g.pick(&[-1, 2, 3])) };
                v
            }).collect(),
            // permutation
            1 => (0..m).map(|j| (0..m).map(|i| if i == j { r(*g.pick(&[1, 1, -1, 2])) } else { R::zero() }).collect()).collect(),
            _ => (0..m).map(|_| vector(g, m, style)).collect(),
        };
        if kind < 2 {
            g.shuffle(&mut cols);
            let mut perm: Vec<usize> = (0..m).collect();
            g.shuffle(&mut perm);
            cols = cols.iter().map(|c| (0..m).map(|i| c[perm[i]].clone()).collect()).collect();
        }
        if nonsingular(&cols) { return cols; }
    }
}

fn queries<B: BasisInverse<F = R>>(h: &mut H<B>, g: &mut Rng, m: usize, style: usize, n: usize) {
    for _ in 0..n {
        if m == 0 { return; }
        match g.below(4) {
            0 => { let v = vector(g, m, style); h.left(&v) }
            1 => { let v = vector(g, m, style); h.right(&v) }
            2 => { let v = vector(g, m, style); h.element(g.below(m), &v) }
            _ => h.row(g.below(m)),
        }
    }
}

fn random<B: BasisInverse<F = R>>(g: &mut Rng, ev: &mut Vec<J>, long: bool, removal: Removal<B>) {
    let mut m = if g.chance(3) { 0 } else if g.chance(70) { 1 + g.below(5) } else if long || g.chance(90) { 1 + g.below(9) } else { 10 + g.below(5) };
    let style = g.below(4);
    let mut h: H<B> = if g.chance(35) { H::identity(m) } else {
        let cols = start_matrix(g, m, style);
        H::invert(cols)
    };
    let len = if long { 25 + g.below(40) } else { g.below(10) };
    queries(&mut h, g, m, style, 2);
    let stays = g.chance(30);
    let fixed = if m > 0 { g.below(m) } else { 0 };
    for _ in 0..len {
        if m == 0 { break; }
        for _ in 0..20 {
            // sometimes the same place again and again, or only the first and the last
            let row = if stays && g.chance(60) { fixed % m } else if g.chance(20) { *g.pick(&[0, m - 1]) } else { g.below(m) };
            let v = if g.chance(20) {
                let k = g.below(m);
                (0..m).map(|i| if i == k { r(*g.pick(&[1, -1])) } else { R::zero() }).collect()
            } else { vector(g, m, style) };
            if h.change(row, &v) { break; }
        }
        if let Some(f) = removal {
            if m > 1 && g.chance(8) { h.remove(f, g); m = h.cols.len(); }
        }
        let k = if long { usize::from(g.chance(50)) } else { 1 + g.below(2) };
        queries(&mut h, g, m, style, k);
        // as the solver does, or earlier, or later
        if (h.bi.should_refactor() && g.chance(50)) || g.chance(2) {
            h.refactor();
            queries(&mut h, g, m, style, 2);
        }
    }
    for i in 0..m { h.row(i); }
    queries(&mut h, g, m, style, 3);
    *ev = h.ev;
}

fn replay<B: BasisInverse<F = R>>(m: usize, ops: &[(usize, Vec<i64>)], ev: &mut Vec<J>) {
    let mut h: H<B> = H::identity(m);
    for (row, v) in ops {
        let v: Vec<R> = v.iter().map(|&x| r(x)).collect();
        if !h.change(*row, &v) {
            h.ev.push(self::ev("refused", vec![("r", J::I(*row as i64)), ("v", json::vec(&v))]));
            break;
        }
        if h.bi.should_refactor() { h.refactor(); }
    }
    for i in 0..m {
        h.row(i);
        let u: Vec<R> = (0..m).map(|k| if k == i { R::one() } else { R::zero() }).collect();
        h.left(&u);
        h.right(&u);
        h.element(m - 1 - i, &u);
    }
    *ev = h.ev;
}

/// `{"m":2,"ops":[[row,[..]],..]}` with row counted from 1: only the integers matter.
fn plan(line: &str) -> (usize, Vec<(usize, Vec<i64>)>) {
    let mut nums = vec![];
    let mut cur = String::new();
    for c in line.chars().chain(" ".chars()) {
        if c.is_ascii_digit() || c == '-' { cur.push(c) } else if !cur.is_empty() { nums.push(cur.parse::<i64>().unwrap()); cur.clear(); }
    }
    let m = nums[0] as usize;
    let ops = nums[1..].chunks(m + 1).map(|c| ((c[0] - 1) as usize, c[1..].to_vec())).collect();
    (m, ops)
}

fn main() {
    let a = run::args();
    let mut out = Out::new(&a.out);
    let mut id = 0;
    let mut emit = |lu: bool, seed: J, f: &mut dyn FnMut(&mut Vec<J>)| {
        id += 1;
        let head = vec![("id", J::I(id)), ("kind", json::s("bi")), ("bi", json::s(if lu { "lu" } else { "rows" })), ("seed", seed)];
        let d = J::O(head.clone()).text();
        let mut ev = vec![];
        let res = run::guarded(|| d, || f(&mut ev));
        let mut line = head;
        line.push(("events", J::A(ev)));
        line.push(("result", match res { Ok(()) => J::O(vec![("st", json::s("ok")), ("msg", json::s(""))]), Err(m) => run::panicked(&m) }));
        out.line(&J::O(line));
    };
    if a.rest[0] == "replay" {
        let text = std::fs::read_to_string(a.out.replace(".ndjson", ".plan")).expect("plan");
        for line in text.lines() {
            let (m, ops) = plan(line);
            emit(true, json::s(line), &mut |ev| replay::<LUDecomposition<R>>(m, &ops, ev));
            emit(false, json::s(line), &mut |ev| replay::<BasisInverseRows<R>>(m, &ops, ev));
        }
    } else {
        let count: usize = a.rest[1].parse().unwrap();
        for k in 0..count {
            let seed = a.seed * 1_000_003 + k as u64;
            let lu = k % 3 != 0;
            let long = k % 5 == 0;
            emit(lu, J::I((seed % (1 << 30)) as i64), &mut |ev| {
                let mut g = Rng::new(seed);
                if lu { random::<LUDecomposition<R>>(&mut g, ev, long, None) } else { random::<BasisInverseRows<R>>(&mut g, ev, long, Some(|b, s| b.remove_basis_part(s))) }
            });
        }
    }
    out.finish();
}
