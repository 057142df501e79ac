//! Importing MPS documents.
//! Modes: `free <count>`, `fixed <count>`, `corrupt <count>`, `garbage <count>`, `num <count>`, `solve <count>`,
//! `path <count>` (what a file is called and whether it can be read), `replay` (plan of the specification). A further argument `plain`: only import, do not look at the result.
use std::convert::TryInto;

use harness::gf::{self, Steps};
use harness::json::{self, J, Out};
use harness::mps::{self, Style};
use harness::rng::Rng;
use harness::run;
use relp::data::linear_program::general_form::GeneralForm;
use relp::io::mps::number::parse::Parse;
use relp::io::mps::{parse, parse_fixed, parse_free};
use relp_num::{Rational64, RationalBig};

type Form = GeneralForm<RationalBig>;

#[derive(Clone, Copy, PartialEq)]
enum Way { Free, Parse, File, Sif, Fixed }

fn import(text: &String, way: Way, scratch: &str) -> Result<Form, String> {
    // the message of the error and of what caused it
    fn show<E: std::error::Error + 'static>(e: E) -> String {
        let mut s = e.to_string();
        let mut next = e.source();
        let mut n = 0;
        while let Some(c) = next {
            n += 1;
            if n > 50 { panic!("causes of an error without end"); }
            s.push_str(&c.to_string());
            next = c.source();
        }
        s
    }
    match way {
        Way::Free => parse_free::<Rational64>(text).map_err(show)?.try_into().map_err(show),
        Way::Parse => parse(text).map_err(show)?.try_into().map_err(show),
        Way::Fixed => parse_fixed::<Rational64>(text).map_err(show)?.try_into().map_err(show),
        Way::File => {
            std::fs::write(scratch, text).expect("scratch file");
            relp::io::import::<RationalBig>(std::path::Path::new(scratch)).map_err(show)?.try_into().map_err(show)
        }
        Way::Sif => {
            let scratch = scratch.replace(".mps", ".SIF");
            std::fs::write(&scratch, text).expect("scratch file");
            relp::io::import::<RationalBig>(std::path::Path::new(&scratch)).map_err(show)?.try_into().map_err(show)
        }
    }
}

fn clean(s: &str) -> String { s.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { ' ' }).take(120).collect() }

struct Runner { out: Out, id: i64, scratch: String, plain: bool }
impl Runner {
    fn doc(&mut self, g: &mut Rng, mode: &str, lay: &str, lines: &[String], way: Way, steps: Steps, other: Option<&Form>) -> Option<Form> {
        self.id += 1;
        let mut text = lines.join("\n");
        if g.chance(60) { text.push('\n'); }
        if mode == "free" && g.chance(10) { text = text.replace('\n', "\r\n"); }
        let name = J::O(vec![("id", J::I(self.id)), ("mode", json::s(mode)), ("lay", json::s(lay)),
            ("lines", J::A(lines.iter().map(json::s).collect()))]).text();
        let r = run::guarded(|| name.clone(), || import(&text, way, &self.scratch));
        let mut events = vec![];
        let mut form = None;
        let mut unstable = false;
        let (res, msg) = match r {
            Err(m) => ("panic", m),
            Ok(Err(m)) => ("error", m),
            Ok(Ok(f)) => {
                let again = run::guarded(|| name.clone(), || import(&text, way, &self.scratch));
                unstable = !matches!(&again, Ok(Ok(x)) if *x == f) || other.is_some_and(|o| *o != f);
                if !self.plain { events = gf::take_big(f.clone(), steps, g, &name); }
                form = Some(f);
                ("ok", String::new())
            }
        };
        let n = events.len();
        self.out.line(&J::O(vec![
            ("id", J::I(self.id)), ("mode", json::s(mode)), ("lay", json::s(lay)),
            ("lines", J::A(lines.iter().map(json::s).collect())),
            ("res", json::s(res)), ("msg", json::s(clean(&msg))), ("unstable", J::B(unstable)),
            ("nev", J::I(n as i64)), ("events", J::A(events)),
        ]));
        form
    }
    fn garbage(&mut self, text: String, way: Way) {
        self.id += 1;
        let name = J::O(vec![("id", J::I(self.id)), ("mode", json::s("garbage")), ("raw", json::s(text.clone()))]).text();
        let (res, msg) = match run::guarded(|| name.clone(), || import(&text, way, &self.scratch)) {
            Err(m) => ("panic", m),
            Ok(Err(m)) => ("error", m),
            Ok(Ok(_)) => ("ok", String::new()),
        };
        self.out.line(&J::O(vec![
            ("id", J::I(self.id)), ("mode", json::s("garbage")), ("lay", json::s(if way == Way::Fixed { "fixed" } else { "free" })),
            ("lines", J::A(vec![])), ("raw", json::s(text)),
            ("res", json::s(res)), ("msg", json::s(clean(&msg))),
        ]));
    }
    /// A document that is fine, in a file that need not be.
    fn path(&mut self, g: &mut Rng) {
        self.id += 1;
        let id = J::O(vec![("id", J::I(self.id)), ("mode", json::s("path"))]).text();
        let dir = format!("{}.paths", self.scratch);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        let exts = ["mps", "SIF", "mps", "SIF", "", "txt", "mpsx", "xmps", "lp", "gz", "SIFF", "S", "m", "ps", "json", "\u{e9}"];
        let ext = *g.pick(&exts);
        let stem = *g.pick(&["a", "mps", "SIF", "a.mps", "a.b", "a b", "\u{df}", ".mps", "mps.SIF"]);
        let file = if ext.is_empty() { stem.to_string() } else { format!("{stem}.{ext}") };
        // what counts is the text behind the last dot that is not the first character
        let seen = match file.rfind('.') { Some(k) if k > 0 => file[k + 1..].to_string(), _ => String::new() };
        let kind = *g.pick(&["file", "file", "file", "missing", "directory", "bytes"]);
        let path = std::path::Path::new(&dir).join(&file);
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&path);
        let text = "NAME x\nROWS\n N c\n L r\nCOLUMNS\n a c 1 r 2\nRHS\n h r 3\nENDATA\n";
        match kind {
            "file" => std::fs::write(&path, text).expect("file"),
            "directory" => std::fs::create_dir(&path).expect("directory"),
            "bytes" => std::fs::write(&path, [text.as_bytes(), &[0xff, 0xfe, 0x80]].concat()).expect("file"),
            _ => {}
        }
        let (res, msg) = match run::guarded(|| id.clone(), || -> Result<Form, String> {
            relp::io::import::<RationalBig>(&path).map_err(|e| e.to_string())?.try_into().map_err(|e| e.to_string())
        }) {
            Err(m) => ("panic", m),
            Ok(Err(m)) => ("error", m),
            Ok(Ok(f)) => (if f.nr_variables() == 1 && f.nr_constraints() <= 1 { "ok" } else { "other" }, String::new()),
        };
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_dir(&path);
        self.out.line(&J::O(vec![
            ("id", J::I(self.id)), ("mode", json::s("path")), ("lay", json::s("free")), ("ext", json::s(seen)), ("kind", json::s(kind)),
            ("file", json::s(file)), ("lines", J::A(vec![])), ("res", json::s(res)), ("msg", json::s(clean(&msg))),
        ]));
    }
    fn numeral(&mut self, text: &str) {
        self.id += 1;
        let name = J::O(vec![("id", J::I(self.id)), ("mode", json::s("numeral")), ("text", json::s(text))]).text();
        let mut val = json::rat(&"0");
        let (res, msg) = match run::guarded(|| name.clone(), || <Rational64 as Parse>::parse(text)) {
            Err(m) => ("panic", m),
            Ok(Err(e)) => ("error", e.to_string()),
            Ok(Ok(v)) => { val = json::rat(&RationalBig::from(v)); ("ok", String::new()) }
        };
        self.out.line(&J::O(vec![
            ("id", J::I(self.id)), ("mode", json::s("numeral")), ("lay", json::s("free")), ("text", json::s(text)),
            ("lines", J::A(vec![])), ("res", json::s(res)), ("msg", json::s(clean(&msg))), ("val", val),
        ]));
    }
}

fn way(g: &mut Rng) -> Way { *g.pick(&[Way::Free, Way::Free, Way::Free, Way::Parse, Way::Parse, Way::File, Way::Sif]) }

fn random_numeral(g: &mut Rng) -> String {
    match g.below(8) {
        0 => g.pick(mps::WRONG).to_string(),
        1 => (0..g.below(7)).map(|_| *g.pick(b"0123456789.+-eE ") as char).collect(),
        2 | 3 => {
            // many digits
            let n = 1 + g.below(24);
            let mut s: String = (0..n).map(|_| *g.pick(b"0123456789990") as char).collect();
            if g.chance(70) { s.insert(g.below(n + 1), '.'); }
            if g.chance(40) { s.insert(0, *g.pick(&['-', '+'])); }
            s
        }
        4 => {
            // close to what 64 bits hold
            let base = *g.pick(&[u64::MAX as u128, i64::MAX as u128, u32::MAX as u128, 10u128.pow(18), 10u128.pow(19)]);
            let mut s = (base + g.below(5) as u128 - 2).to_string();
            if g.chance(60) { s.insert(g.below(s.len() + 1), '.'); }
            if g.chance(30) { s = format!("{}{}", "0".repeat(g.below(20)), s); }
            if g.chance(40) { s.insert(0, '-'); }
            s
        }
        5 => {
            let k = g.int(1, 30) as usize;
            format!("{}0.{}{}", if g.chance(50) { "-" } else { "" }, "0".repeat(k), g.below(100))
        }
        6 => {
            let base = mps::numeral(g, true);
            format!("{base}{}", if base.contains('.') { "0".repeat(g.below(25)) } else { String::new() })
        }
        _ => {
            let mut s = mps::numeral(g, true);
            if g.chance(50) {
                let at = g.below(s.len() + 1);
                s.insert(at, *g.pick(b".-+0 ,eE_x") as char);
            }
            s
        }
    }
}

fn main() {
    let args = run::args();
    let mode = args.rest[0].clone();
    let scratch = format!("{}.mps", args.out);
    let plain = args.rest.last().is_some_and(|a| a == "plain");
    let mut r = Runner { out: Out::new(&args.out), id: 0, scratch: scratch.clone(), plain };
    let look = Steps { presolve: false, scale: false, observe: true, points: 0, lu: false, solve: false, again: false, first: false };
    if mode == "replay" {
        let plan = std::fs::read_to_string(format!("{}.plan", args.out.trim_end_matches(".ndjson"))).expect("plan");
        let mut g = Rng::new(args.seed);
        for line in plan.lines() {
            // {"lay":"free","lines":[..]}: the specification writes plain text only
            let lay = if line.contains("\"lay\":\"fixed\"") { "fixed" } else { "free" };
            let inner = &line[line.find('[').unwrap() + 1..line.rfind(']').unwrap()];
            let lines: Vec<String> = inner.split("\",\"").map(|s| s.trim_matches('"').to_string()).collect();
            let w = if lay == "fixed" { Way::Fixed } else { Way::Free };
            r.doc(&mut g, if lay == "fixed" { "fixed" } else { "free" }, lay, &lines, w, look, None);
        }
        r.out.finish();
        return;
    }
    let count: usize = args.rest[1].parse().unwrap();
    for k in 0..count {
        let mut g = Rng::new(args.seed.wrapping_mul(1_000_003).wrapping_add(k as u64 * 977 + mode.len() as u64));
        let g = &mut g;
        let size = if k % 100 == 57 && matches!(mode.as_str(), "free" | "fixed" | "corrupt") { 14 } else { *g.pick(&[2usize, 4, 4, 6]) };
        let mut style = Style { rows: size, cols: size, fixed: false, blanks: false, big: g.chance(15), rich: true };
        match mode.as_str() {
            "path" => r.path(g),
            "free" => {
                let s = mps::statement(g, style);
                let lines = mps::lines(g, &s);
                let doc = mps::render(g, &lines, false);
                let w = way(g);
                r.doc(g, "free", "free", &doc, w, look, None);
            }
            "fixed" => {
                style = Style { fixed: true, blanks: g.chance(40), big: false, ..style };
                let s = mps::statement(g, style);
                let lines = mps::lines(g, &s);
                let doc = mps::render(g, &lines, true);
                let form = r.doc(g, "fixed", "fixed", &doc, Way::Fixed, look, None);
                if !style.blanks {
                    let lines = mps::lines(g, &s);
                    let doc = mps::render(g, &lines, false);
                    r.doc(g, "fixed", "free", &doc, Way::Free, look, form.as_ref());
                }
            }
            "corrupt" => {
                let fixed = g.chance(40);
                style = Style { fixed, blanks: fixed && g.chance(30), big: false, ..style };
                let s = mps::statement(g, style);
                let lines = mps::lines(g, &s);
                let mut doc = mps::render(g, &lines, fixed);
                for _ in 0..*g.pick(&[1, 1, 1, 2, 3]) { mps::corrupt(g, &mut doc); }
                doc.retain(|l| !l.contains('\n'));
                let w = if fixed { Way::Fixed } else { way(g) };
                r.doc(g, "corrupt", if fixed { "fixed" } else { "free" }, &doc, w, look, None);
            }
            "garbage" => {
                let fixed = g.chance(50);
                style = Style { fixed, ..style };
                let s = mps::statement(g, style);
                let lines = mps::lines(g, &s);
                let mut doc = mps::render(g, &lines, fixed);
                if g.chance(30) { mps::corrupt(g, &mut doc); }
                let mut text = doc.join("\n");
                mps::spoil(g, &mut text);
                if g.chance(5) { text = (0..g.below(60)).map(|_| *g.pick(&['N', 'A', 'M', 'E', ' ', '\n', 'é', '\t', '*', '1'])).collect(); }
                let w = if fixed { Way::Fixed } else { way(g) };
                r.garbage(text, w);
            }
            "num" => {
                if g.chance(70) {
                    let t = random_numeral(g);
                    r.numeral(&t);
                } else {
                    style = Style { rows: 2, cols: 2, big: true, ..style };
                    let mut s = mps::statement(g, style);
                    for _ in 0..1 + g.below(2) {
                        let j = g.below(s.cols.len());
                        let i = g.below(s.cols[j].1.len());
                        let t = random_numeral(g);
                        if !t.contains(' ') && !t.is_empty() { s.cols[j].1[i].1 = t; }
                    }
                    let lines = mps::lines(g, &s);
                    let doc = mps::render(g, &lines, false);
                    let w = way(g);
                    r.doc(g, "num", "free", &doc, w, look, None);
                }
            }
            _ => {
                let fixed = g.chance(30);
                style = Style { rows: 4, cols: 4, fixed, blanks: fixed && g.chance(50), big: false, rich: g.chance(60) };
                let s = mps::statement(g, style);
                let lines = mps::lines(g, &s);
                let doc = mps::render(g, &lines, fixed);
                let steps = Steps { presolve: g.chance(75), scale: g.chance(30), observe: false, points: 0, lu: g.chance(70), solve: true, again: false, first: false };
                let w = if fixed { Way::Fixed } else { way(g) };
                r.doc(g, "solve", if fixed { "fixed" } else { "free" }, &doc, w, steps, None);
            }
        }
    }
    let _ = std::fs::remove_file(&scratch);
    r.out.finish();
}
