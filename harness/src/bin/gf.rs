//! Problems in general form.
//! Modes: `std <count>`, `pre <count>`, `scale <count>`, `solve <count>`, `wide <count>`, `widescale <count>`;
//! `replay <mode>` takes problems the specification generated.
use harness::gf::{self, Gp, Rel, Steps};
use harness::json::{self, J, Out};
use harness::rng::Rng;
use harness::run;

/// A problem the specification generated (PresolveMC).
fn planned(line: &str) -> Gp {
    let p = json::parse(line);
    let opt = |j: &J| j.items().first().map(|v| (v.int(), 1));
    let a = p.get("a").items();
    let sides: Vec<_> = p.get("r").items().iter().map(|r| (opt(&r.items()[0]), opt(&r.items()[1]))).collect();
    let n = p.get("d").items().len();
    Gp {
        max: *p.get("max") == J::B(true),
        fixed: (p.get("fixed").int(), 1),
        rels: sides.iter().map(|r| match *r {
            (Some(l), Some(h)) if l == h => Rel::Eq,
            (Some(l), Some(h)) => Rel::Range((h.0 - l.0, 1)),
            (None, _) => Rel::Le,
            (_, None) => Rel::Ge,
        }).collect(),
        b: sides.iter().map(|r| r.1.or(r.0).expect("a side")).collect(),
        cols: (0..n).map(|j| a.iter().map(|row| (row.items()[j].int(), 1)).collect()).collect(),
        vars: p.get("d").items().iter().zip(p.get("c").items())
            .map(|(d, c)| (opt(&d.items()[0]), opt(&d.items()[1]), (c.int(), 1))).collect(),
        names: (1..=n).map(|j| format!("v{j}")).collect(),
    }
}

fn main() {
    let args = run::args();
    let mut out = Out::new(&args.out);
    let plans: Option<Vec<String>> = (args.rest[0] == "replay").then(|| {
        std::fs::read_to_string(args.out.replace(".ndjson", ".plan")).expect("plan").lines().map(String::from).collect()
    });
    let mode = args.rest[plans.is_some() as usize].clone();
    let count: usize = plans.as_ref().map_or_else(|| args.rest[1].parse().unwrap(), Vec::len);
    let (max_m, max_n) = match mode.as_str() { "solve" => (7, 7), "pre" => (5, 5), "wide" | "widescale" => (44, 12), _ => (4, 4) };
    for k in 0..count {
        let mut g = Rng::new(args.seed.wrapping_mul(1_000_003).wrapping_add(k as u64 * 977 + mode.len() as u64));
        let (mm, nn) = if !mode.starts_with("wide") && g.chance(30) { (2, 3) } else { (max_m, max_n) };
        let p = match &plans { Some(v) => planned(&v[k]), None => gf::random(&mut g, mm, nn) };
        let small = g.chance(50) && (mode == "std" || mode == "wide" || mm <= 5);
        let s = match mode.as_str() {
            "wide" | "widescale" => Steps { presolve: false, scale: mode == "widescale", observe: true, points: 0, lu: false, solve: false, again: false, first: false },
            "std" => Steps { presolve: false, scale: false, observe: true, points: 0, lu: false, solve: false, again: false, first: false },
            "pre" => Steps { presolve: true, scale: false, observe: true, points: 4, lu: false, solve: false, again: g.chance(30), first: false },
            "scale" => Steps { presolve: g.chance(30), scale: true, observe: true, points: 2, lu: false, solve: false, again: false, first: false },
            _ => Steps { presolve: g.chance(75), scale: g.chance(30), observe: false, points: 0, lu: g.chance(70), solve: true, again: g.chance(10), first: false },
        };
        let s = if s.scale && s.observe && !s.presolve && g.chance(40) { Steps { first: true, scale: false, ..s } } else { s };
        // identifies the problem should the code not return
        let id = J::O(vec![("id", J::I(k as i64 + 1)), ("mode", json::s(mode.clone())), ("scaled", J::B(s.scale || s.first)),
            ("first", J::B(s.first)), ("presolved", J::B(s.presolve)), ("P", p.json())]).text();
        run::overflowed();
        let mut events = vec![];
        let mut small = small;
        if small {
            events = gf::take_small(gf::form_small(&p), s, &mut g, &id);
            // says nothing about the code: such a problem needs other numbers
            small = !run::overflowed();
        }
        if !small { events = gf::take_big(gf::form_big(&p), s, &mut g, &id); }
        let last = events.len();
        out.line(&J::O(vec![
            ("id", J::I(k as i64 + 1)),
            ("mode", json::s(mode.clone())),
            ("small", J::B(small)),
            ("scaled", J::B(s.scale || s.first)),
            ("first", J::B(s.first)),
            ("presolved", J::B(s.presolve)),
            ("P", p.json()),
            ("nev", J::I(last as i64)),
            ("events", J::A(events)),
        ]));
    }
    out.finish();
}
