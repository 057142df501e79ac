//! Results (and traces) of whole runs of the two-phase method on standard form problems.
//! Modes: `results` (verdict and solution only), `traces` (every simplex step), `bfs` (phase one),
//! `replay <mode>` takes problems the specification generated;
//! and `cycle` (many degenerate problems with every rule; only the runs that do not end, and every
//! so many of the others, are written).
use harness::gen_lp::*;
use harness::json::{self, J, Out};
use harness::prov::{Std, q, r};
use harness::rng::Rng;
use harness::run::{self, Path, RULES, Rule};

struct Ctx { out: Out, id: usize, traced: bool, bfs: bool, cap: usize }

impl Ctx {
    fn case(&mut self, p: &Std, path: Path, lu: bool, basis: &[usize], rule: Rule) {
        self.id += 1;
        let mut head = vec![
            ("id", J::I(self.id as i64)),
            ("kind", json::s("std")),
            ("path", json::s(path.name())),
            ("bi", json::s(if lu { "lu" } else { "rows" })),
            ("rule", json::s(rule.name())),
            ("start", json::ints(basis)),
        ];
        head.extend(run::std_json(p));
        let d = J::O(head.clone()).text();
        let (events, result) = if self.bfs {
            run::bfs(p, path, lu, self.cap, || d)
        } else {
            run::solve(p, path, lu, basis, rule, self.traced, self.cap, || d)
        };
        head.push(("events", J::A(events)));
        head.push(("result", result));
        self.out.line(&J::O(head));
    }
}

/// The problem with rows and columns permuted and scaled by positive numbers.
fn disguise(g: &mut Rng, p: &Std) -> Std {
    let n = p.n();
    let mut rows: Vec<usize> = (0..p.m).collect();
    let mut cols: Vec<usize> = (0..n).collect();
    if g.chance(80) { g.shuffle(&mut rows); }
    if g.chance(80) { g.shuffle(&mut cols); }
    let f = |g: &mut Rng, p: u64| if g.chance(p) { q(g.int(1, 4), g.int(1, 3)) } else { r(1) };
    let rs: Vec<_> = (0..p.m).map(|_| f(g, 30)).collect();
    let cs: Vec<_> = (0..n).map(|_| f(g, 30)).collect();
    with_pivots(Std {
        m: p.m,
        cols: cols.iter().map(|&j| rows.iter().map(|&i| &(&p.cols[j][i] * &rs[i]) * &cs[j]).collect()).collect(),
        cost: cols.iter().map(|&j| &p.cost[j] * &cs[j]).collect(),
        rhs: rows.iter().map(|&i| &p.rhs[i] * &rs[i]).collect(),
        pivots: vec![],
    })
}

/// All right-hand sides but those of the bounding rows are zero; small coefficients.
fn cone(g: &mut Rng) -> Std {
    let m = 2 + g.below(3);
    let n = m + 2 + g.below(3);
    let d = *g.pick(&[1i64, 2, 3]);
    let mut cols: Vec<Vec<_>> = (0..n).map(|_| (0..m).map(|_| if g.chance(75) { q(g.int(-6, 6), d) } else { r(0) }).collect()).collect();
    let mut cost: Vec<_> = (0..n).map(|_| r(g.int(-8, 8))).collect();
    for i in 0..m {
        cols.push((0..m).map(|k| if k == i { r(1) } else { r(0) }).collect());
        cost.push(r(0));
    }
    let mut rhs = vec![r(0); m];
    if g.chance(60) { rhs[m - 1] = r(1); }
    with_pivots(Std { m, cols, cost, rhs, pivots: vec![] })
}

/// The objective as a row without slack: phase one then improves it, from the same degenerate vertex.
/// (Columns with a cost are no longer pivots.)
fn objective_as_row(g: &mut Rng, p: &Std) -> Std {
    let mut cols = p.cols.clone();
    let f = if g.chance(30) { r(1) } else { q(1, *g.pick(&[7, 100, 1000, 10_000])) };
    for (j, c) in cols.iter_mut().enumerate() { c.push(-(&p.cost[j] * &f)); }
    let mut rhs = p.rhs.clone();
    rhs.push(r(g.int(1, 5)));
    Std { m: p.m + 1, cols, cost: p.cost.clone(), rhs, pivots: p.pivots.iter().copied().filter(|v| p.cost[v.1] == r(0)).collect() }
}

fn cycle(a: &run::Args) {
    let count: usize = a.rest[1].parse().unwrap();
    let mut g = Rng::new(a.seed ^ 0xc1c);
    let mut out = Out::new(&a.out);
    let (mut id, mut capped) = (0, 0);
    let all = classics();
    let steepest = steepest_cones();
    let mut runs = 0;
    while runs < count && capped < 5 {
        let p = match g.below(20) {
            0..=7 => { let p = g.pick(&all[..3.min(all.len())]).clone(); disguise(&mut g, &p) }
            8..=9 => { let p = g.pick(&all).clone(); disguise(&mut g, &p) }
            10..=11 => g.pick(&steepest).clone(),
            12..=16 => cone(&mut g),
            _ => { let m = 1 + g.below(5); let n = 2 + g.below(6); degenerate(&mut g, m, n) }
        };
        let basis = if p.pivots.len() == p.m { Some(p.pivots.iter().map(|x| x.1).collect()) } else { feasible_basis(&mut g, &p) };
        let mut todo = vec![(Path::Plain, Rule::Objective, vec![])];
        let other = if basis.is_some() && p.pivots.len() == p.m { Some(objective_as_row(&mut g, &p)) } else { None };
        if other.is_some() { todo.push((Path::Partial, Rule::Objective, vec![])); }
        if let Some(b) = &basis { for r in RULES { todo.push((Path::Basis, r, b.clone())); } }
        for (path, rule, start) in todo {
            runs += 1;
            let p = if path == Path::Partial { other.as_ref().unwrap() } else { &p };
            let lu = g.chance(50);
            let mut head = vec![
                ("id", J::I(id as i64 + 1)),
                ("kind", json::s("std")),
                ("path", json::s(path.name())),
                ("bi", json::s(if lu { "lu" } else { "rows" })),
                ("rule", json::s(rule.name())),
                ("start", json::ints(&start)),
            ];
            head.extend(run::std_json(p));
            let d = J::O(head.clone()).text();
            let (_, result) = run::solve(p, path, lu, &start, rule, false, 3000, || d);
            let bad = result.text().contains("\"st\":\"cap\"") || result.text().contains("\"st\":\"panic\"");
            if bad { capped += 1; }
            if bad || runs % 200 == 0 {
                id += 1;
                head.push(("of", J::I(runs as i64)));
                head.push(("events", J::A(vec![])));
                head.push(("result", result));
                out.line(&J::O(head));
            }
        }
    }
    out.finish();
}

/// Problems of the specification (module Programs), each on one of the paths it allows.
fn replay(a: &run::Args) {
    let mode = a.rest[1].as_str();
    let traced = mode != "results";
    let mut c = Ctx { out: Out::new(&a.out), id: 0, traced, bfs: mode == "bfs", cap: if traced { 600 } else { 5000 } };
    let mut g = Rng::new(a.seed);
    for line in std::fs::read_to_string(a.out.replace(".ndjson", ".plan")).expect("plan").lines() {
        let j = json::parse(line);
        let nums = |v: &J| v.items().iter().map(|x| r(x.int())).collect::<Vec<_>>();
        let rhs = nums(j.get("b"));
        let p = with_pivots(Std { m: rhs.len(), cols: j.get("cols").items().iter().map(nums).collect(), cost: nums(j.get("c")), rhs, pivots: vec![] });
        let lu = g.chance(60);
        let full = p.pivots.len() == p.m && mode != "bfs";
        match g.below(if mode == "bfs" { 4 } else { 6 }) {
            0 | 1 => c.case(&p, Path::Plain, lu, &[], Rule::Objective),
            2 | 3 => c.case(&p, Path::Partial, lu, &[], Rule::Objective),
            4 if full => c.case(&p, Path::Full, lu, &[], Rule::Objective),
            _ => match feasible_basis(&mut g, &p) {
                Some(b) => c.case(&p, Path::Basis, lu, &b, *g.pick(&RULES)),
                None => c.case(&p, Path::Plain, lu, &[], Rule::Objective),
            },
        }
    }
    c.out.finish();
}

fn main() {
    let a = run::args();
    if a.rest[0] == "cycle" { return cycle(&a); }
    if a.rest[0] == "replay" { return replay(&a); }
    let mode = a.rest[0].as_str();
    let count: usize = a.rest[1].parse().unwrap();
    let traced = mode != "results";
    let mut g = Rng::new(a.seed);
    let mut c = Ctx { out: Out::new(&a.out), id: 0, traced, bfs: mode == "bfs", cap: if traced { 600 } else { 5000 } };
    for p in classics() {
        for lu in [true, false] {
            c.case(&p, Path::Plain, lu, &[], Rule::Objective);
            c.case(&p, Path::Partial, lu, &[], Rule::Objective);
            if p.pivots.len() == p.m && mode != "bfs" { c.case(&p, Path::Full, lu, &[], Rule::Objective); }
        }
    }
    while c.id < count {
        let big = g.chance(4);
        let max_m = if big && g.chance(25) { 12 } else if big { 8 } else { 5 };
        let m = if g.chance(8) { g.below(2) } else { 1 + g.below(max_m) };
        let n = if g.chance(3) { 0 } else { 1 + g.below(max_m + 4) };
        let lu = g.chance(60);
        match if mode == "bfs" { [0, 3, 7][g.below(3)] } else { g.below(10) } {
            0..=2 => {
                let p = random(&mut g, m, n);
                c.case(&p, Path::Plain, lu, &[], Rule::Objective);
            }
            3..=5 => {
                let p = random(&mut g, m, n);
                c.case(&p, Path::Partial, lu, &[], Rule::Objective);
            }
            6 => {
                let p = random_full(&mut g, m, n);
                c.case(&p, Path::Full, lu, &[], Rule::Objective);
            }
            7 => {
                let p = degenerate(&mut g, m.max(1), n);
                let path = if mode == "bfs" { Path::Plain } else { *g.pick(&[Path::Full, Path::Partial, Path::Plain]) };
                c.case(&p, path, lu, &[], Rule::Objective);
            }
            _ => {
                let p = if g.chance(50) { random(&mut g, m, n.max(m)) } else { random_full(&mut g, m, n) };
                if let Some(b) = feasible_basis(&mut g, &p) {
                    let rule = *g.pick(&RULES);
                    c.case(&p, Path::Basis, lu, &b, rule);
                }
            }
        }
    }
    c.out.finish();
}
