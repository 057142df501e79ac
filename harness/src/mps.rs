//! Statements of linear programs as MPS documents, and corruptions of documents.
use crate::rng::Rng;

/// A statement, before it is laid out in lines.
#[derive(Clone, Debug, Default)]
pub struct Stmt {
    pub name: String,
    /// The word of an OBJSENSE section.
    pub sense: Option<String>,
    /// Type and name, the cost row among them.
    pub rows: Vec<(String, String)>,
    pub cols: Vec<(String, Vec<(String, String)>)>,
    /// The columns of these positions are between markers.
    pub integer: Option<(usize, usize)>,
    pub rhs: Option<Vec<(String, String, String)>>,
    pub rng: Option<Vec<(String, String, String)>>,
    /// Type, set, column, value or nothing.
    pub bnd: Option<Vec<(String, String, String, String)>>,
}

/// A line: a header or the six fields (with an empty text for an absent one).
#[derive(Clone, Debug, PartialEq)]
pub enum Line {
    Header(String),
    Fields([String; 6]),
    Text(String),
}

fn text(s: impl AsRef<str>) -> String { s.as_ref().to_string() }

const SPECIAL: &[&str] = &["ROWS", "RHS", "BOUNDS", "ENDATA", "NAME", "UP", "N", "E", "FR", "1", "-3", "A.B", "X#1", "a", "b_c", "x(1)", "$K", "COST", "MARKER", "E1"];

fn names(g: &mut Rng, n: usize, prefix: char, blanks: bool, max: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let style = match g.below(5) { 1 if n > 7 => 0, style => style };
    while out.len() < n {
        let k = out.len();
        let mut s = match style {
            0 => format!("{prefix}{}", k + 1),
            1 => format!("{prefix}{}", (b'Z' - (k as u8 * 7 + g.below(3) as u8) % 26) as char),
            2 => { let mut s = format!("{prefix}{}", g.below(100)); while s.len() < max && g.chance(60) { s.push((b'A' + g.below(26) as u8) as char); } s }
            3 => if g.chance(50) { text(g.pick(SPECIAL)) } else { format!("{prefix}{}", g.below(1000)) },
            // Names that are nearly the same
            _ => match out.last() {
                None => format!("{prefix}{}", g.pick(&["a1", "Ab", "x", "_", "10", "aBc"])),
                Some(last) => match g.below(4) {
                    0 => last.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(),
                    1 => format!("{last}{}", g.pick(&["0", "a", "A", "_", "."])),
                    2 => format!("{}{}", g.pick(&["0", "a", "A", "_"]), last),
                    _ => format!("{}{}", &last[..last.len() - 1], g.pick(&["0", "1", "a", "A", "b", "B"])),
                },
            },
        };
        if blanks && g.chance(40) && s.len() + 2 <= max { s = format!("{} {}", s, g.below(10)); }
        s.truncate(max);
        let s = s.trim_end().to_string();
        if !out.contains(&s) { out.push(s); }
    }
    out
}

/// A spelling of `n / 10^k`.
pub fn spell(g: &mut Rng, n: i64, k: u32) -> String {
    let digits = n.unsigned_abs().to_string();
    let k = k as usize;
    let digits = if digits.len() <= k { format!("{}{}", "0".repeat(k + 1 - digits.len()), digits) } else { digits };
    let (w, f) = digits.split_at(digits.len() - k);
    let mut w = w.to_string();
    let mut f = f.to_string();
    if g.chance(10) { w = format!("{}{}", "0".repeat(1 + g.below(2)), w); }
    if g.chance(10) { f.push_str(&"0".repeat(1 + g.below(2))); }
    if w == "0" && !f.is_empty() && g.chance(40) { w.clear(); }
    let sign = if n < 0 { "-" } else if g.chance(8) { "+" } else { "" };
    if f.is_empty() && (w.is_empty() || !g.chance(15)) {
        if w.is_empty() { w = text("0"); }
        format!("{sign}{w}")
    } else {
        format!("{sign}{w}.{f}")
    }
}

pub fn numeral(g: &mut Rng, big: bool) -> String {
    let k = *g.pick(&[0u32, 0, 0, 0, 1, 1, 2, 3, 5]);
    let max = if big { *g.pick(&[9i64, 999, 99_999, 9_999_999, 4_294_967_296, 999_999_999_999, 999_999_999_999_999, i64::MAX / 10]) } else { *g.pick(&[3i64, 9, 9, 99]) };
    let n = g.int(1, max) * if g.chance(40) { -1 } else { 1 };
    let mut k = k;
    while n % 10 == 0 && k > 0 && g.chance(50) { k -= 1; }
    if g.chance(5) { return text(g.pick(&["0", "0.0", "-0", "0."])); }
    let s = spell(g, n, k);
    if !big && s.len() > 12 { numeral(g, big) } else { s }
}

/// What a statement may contain.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub rows: usize,
    pub cols: usize,
    /// Names may have inner blanks and are at most eight characters.
    pub fixed: bool,
    pub blanks: bool,
    pub big: bool,
    /// Bound entries of all kinds, several right-hand sides and ranges.
    pub rich: bool,
}

pub fn statement(g: &mut Rng, style: Style) -> Stmt {
    let max = if style.fixed { 8 } else { 12 };
    let m = g.below(style.rows + 1);
    let n = 1 + g.below(style.cols);
    let row_names = names(g, m + 1, 'R', style.blanks, max);
    let col_names = names(g, n, 'C', style.blanks, max);
    let cost = row_names[0].clone();
    let mut rows: Vec<(String, String)> = row_names[1..].iter().map(|r| (text(g.pick(&["L", "G", "E", "L", "G"])), r.clone())).collect();
    rows.insert(if g.chance(60) { 0 } else { g.below(m + 1) }, (text("N"), cost.clone()));
    let density = *g.pick(&[30u64, 60, 90]);
    let mut cols = vec![];
    for c in &col_names {
        let mut a = vec![];
        for (_, r) in &rows {
            if g.chance(density) { a.push((r.clone(), numeral(g, style.big))); }
        }
        if a.is_empty() { a.push((cost.clone(), numeral(g, style.big))); }
        if g.chance(30) { g.shuffle(&mut a); }
        cols.push((c.clone(), a));
    }
    let integer = if g.chance(12) { let a = g.below(n); Some((a, a + g.below(n - a))) } else { None };
    let set = |g: &mut Rng, names: &[&str]| text(g.pick(names));
    let rows_only: Vec<(String, String)> = rows.iter().filter(|r| r.0 != "N").cloned().collect();
    let rhs = if g.chance(85) {
        let s = set(g, &["RHS", "B", "RHS1", "rhs"]);
        let mut v = vec![];
        for (_, r) in &rows_only {
            if g.chance(70) { v.push((s.clone(), r.clone(), numeral(g, style.big))); }
        }
        if g.chance(30) { g.shuffle(&mut v); }
        if style.rich && g.chance(15) {
            let other = format!("{s}2");
            for (_, r) in &rows_only {
                if g.chance(50) {
                    let val = match v.iter().find(|e| e.1 == *r) { Some(e) if g.chance(50) => e.2.clone(), _ => numeral(g, style.big) };
                    v.push((other.clone(), r.clone(), val));
                }
            }
        }
        if g.chance(3) { let e = (s.clone(), cost.clone(), numeral(g, style.big)); v.insert(0, e); }
        Some(v)
    } else { None };
    let rng = if style.rich && g.chance(45) {
        let s = set(g, &["RNG", "RANGE", "R1"]);
        let mut v = vec![];
        for (_, r) in &rows_only {
            if g.chance(50) { v.push((s.clone(), r.clone(), if g.chance(12) { text("0") } else { numeral(g, style.big) })); }
        }
        if g.chance(20) && v.len() > 1 { let k = 1 + g.below(v.len() - 1); for e in &mut v[k..] { e.0 = format!("{s}2"); } }
        Some(v)
    } else { None };
    let bnd = if g.chance(60) {
        let s = set(g, &["BND", "BOUND", "B1"]);
        let mut v: Vec<(String, String, String, String)> = vec![];
        for c in &col_names {
            let base = g.int(-5, 5);
            let low = |g: &mut Rng| { let d = g.int(0, 30); spell(g, base * 10 - d, 1) };
            let high = |g: &mut Rng| { let d = g.int(0, 30); spell(g, base * 10 + d, 1) };
            match g.below(if style.rich { 14 } else { 4 }) {
                0 => { let t = low(g); v.push((text("LO"), s.clone(), c.clone(), t)); }
                1 => { let t = spell(g, g.clone().int(0, 90), 1); v.push((text("UP"), s.clone(), c.clone(), t)); }
                2 => {
                    let (a, b) = (low(g), high(g));
                    let mut two = [(text("LO"), s.clone(), c.clone(), a), (text("UP"), s.clone(), c.clone(), b)];
                    if g.chance(50) { two.swap(0, 1); }
                    v.extend(two);
                }
                3 | 4 => {}
                5 => { let t = high(g); v.push((text("FX"), s.clone(), c.clone(), t)); }
                6 => v.push((text("FR"), s.clone(), c.clone(), text(""))),
                7 => v.push((text("MI"), s.clone(), c.clone(), text(""))),
                8 => v.push((text("PL"), s.clone(), c.clone(), text(""))),
                9 => v.push((text("BV"), s.clone(), c.clone(), text(""))),
                10 => { let t = low(g); v.push((text("LI"), s.clone(), c.clone(), t)); }
                11 => { let t = high(g); v.push((text("UI"), s.clone(), c.clone(), t)); }
                12 => {
                    // any sequence of entries
                    for _ in 0..1 + g.below(3) {
                        let t = text(g.pick(&["LO", "UP", "FX", "FR", "MI", "PL", "BV", "LI", "UI"]));
                        let val = if ["FR", "MI", "PL", "BV"].contains(&t.as_str()) { text("") } else { numeral(g, style.big) };
                        v.push((t, s.clone(), c.clone(), val));
                    }
                }
                _ => {
                    let t = numeral(g, style.big);
                    v.push((text(g.pick(&["LO", "UP", "FX"])), s.clone(), c.clone(), t));
                }
            }
        }
        if g.chance(30) { g.shuffle(&mut v); }
        if style.rich && g.chance(15) && v.len() > 1 { let k = 1 + g.below(v.len() - 1); for e in &mut v[k..] { e.1 = format!("{s}2"); } }
        Some(v)
    } else { None };
    Stmt {
        name: text(g.pick(&["P", "TEST", "LP1", "a-b", "NAME"])),
        sense: if g.chance(25) { Some(text(g.pick(&["MAX", "MAXIMIZE", "MIN", "MINIMIZE"]))) } else { None },
        rows, cols, integer, rhs, rng, bnd,
    }
}

fn fields(f: [&str; 6]) -> Line { Line::Fields(f.map(text)) }

/// The lines that say it; entries of one column or set may share a line.
pub fn lines(g: &mut Rng, s: &Stmt) -> Vec<Line> {
    let mut out = vec![Line::Text(format!("NAME{}{}", " ".repeat(*g.pick(&[1, 4, 10])), s.name))];
    if let Some(w) = &s.sense {
        out.push(Line::Header(text("OBJSENSE")));
        out.push(Line::Text(format!("  {w}")));
    }
    out.push(Line::Header(text("ROWS")));
    for (t, r) in &s.rows { out.push(fields([t, r, "", "", "", ""])); }
    out.push(Line::Header(text("COLUMNS")));
    let share = *g.pick(&[0u64, 50, 100]);
    let mut pairs = |g: &mut Rng, out: &mut Vec<Line>, group: &[(String, String, String)]| {
        let mut k = 0;
        while k < group.len() {
            let (c, r, v) = &group[k];
            if k + 1 < group.len() && group[k + 1].0 == *c && g.chance(share) {
                out.push(fields(["", c, r, v, &group[k + 1].1, &group[k + 1].2]));
                k += 2;
            } else {
                out.push(fields(["", c, r, v, "", ""]));
                k += 1;
            }
        }
    };
    for (j, (c, a)) in s.cols.iter().enumerate() {
        if s.integer.is_some_and(|(x, _)| x == j) { out.push(fields(["", "M1", "'MARKER'", "", "'INTORG'", ""])); }
        let group: Vec<_> = a.iter().map(|(r, v)| (c.clone(), r.clone(), v.clone())).collect();
        pairs(g, &mut out, &group);
        if s.integer.is_some_and(|(_, y)| y == j) { out.push(fields(["", "M2", "'MARKER'", "", "'INTEND'", ""])); }
    }
    if let Some(v) = &s.rhs { out.push(Line::Header(text("RHS"))); pairs(g, &mut out, v); }
    if let Some(v) = &s.rng { out.push(Line::Header(text("RANGES"))); pairs(g, &mut out, v); }
    if let Some(v) = &s.bnd {
        out.push(Line::Header(text("BOUNDS")));
        for (t, s, c, v) in v { out.push(fields([t, s, c, v, "", ""])); }
    }
    out.push(Line::Header(text("ENDATA")));
    out
}

fn free_line(g: &mut Rng, l: &Line) -> String {
    match l {
        Line::Header(s) | Line::Text(s) => s.clone(),
        Line::Fields(f) => {
            let mut s = " ".repeat(1 + g.below(4));
            for w in f.iter().filter(|w| !w.is_empty()) {
                if !s.trim().is_empty() { s.push_str(&" ".repeat(1 + g.below(*g.clone().pick(&[1, 3, 8])))); }
                s.push_str(w);
            }
            s
        }
    }
}

const COLUMNS: [(usize, usize); 6] = [(1, 3), (4, 12), (14, 22), (24, 36), (39, 47), (49, 61)];

fn fixed_line(g: &mut Rng, l: &Line) -> String {
    match l {
        Line::Header(s) | Line::Text(s) => s.clone(),
        Line::Fields(f) => {
            let mut s = " ".to_string();
            for (k, w) in f.iter().enumerate() {
                if w.is_empty() { continue; }
                let (from, to) = COLUMNS[k];
                while s.len() < from { s.push(' '); }
                let room = (to - from).saturating_sub(w.len());
                let pad = match k {
                    0 => if room > 0 && g.chance(20) { 1 } else { 0 },
                    3 | 5 => match g.below(4) { 0 => 0, 1 => g.below(room + 1), _ => room },
                    _ => 0,
                };
                s.push_str(&" ".repeat(pad));
                s.push_str(w);
            }
            s
        }
    }
}

/// Lines in a layout, with comments, empty lines and blanks at the end of lines.
pub fn render(g: &mut Rng, lines: &[Line], fixed: bool) -> Vec<String> {
    let noise = *g.pick(&[0u64, 0, 5, 20]);
    let trailing = *g.pick(&[0u64, 0, 10, 100]);
    let mut out = vec![];
    for l in lines {
        while g.chance(noise) {
            out.push(text(g.pick(&["* comment", "*", "", "  ", "    * R1 5", "*ROWS", "   ", "* ENDATA", " *"])));
        }
        let mut s = if fixed { fixed_line(g, l) } else { free_line(g, l) };
        if g.chance(trailing) {
            let n = if fixed && s.len() < 61 && g.chance(50) { 61 - s.len() } else { g.below(5) };
            let n = if fixed && s.starts_with(' ') { n.min(61usize.saturating_sub(s.len())) } else { n };
            s.push_str(&" ".repeat(n));
        }
        out.push(s);
    }
    out
}

pub const WRONG: &[&str] = &["abc", "1.2.3", "--1", "-", "+", ".", "-.", "+.", "1-", "0x1", "1,5", "-+5", "+-5", "1.+5", "1.-5", "1e", "e5", "1e5", "1E-3", "2e+2",
    "inf", "nan", "1/2", "12345678901234567890", "18446744073709551616", "99999999999999999999999999", "0.00000000000000000000000001", "1.", ".5", "+.5", "-.5", "00", "1_000", "1 "];

/// Change some lines so that they probably violate the format.
pub fn corrupt(g: &mut Rng, doc: &mut Vec<String>) {
    let n = doc.len();
    if n == 0 { return; }
    let k = g.below(n);
    // mostly the lines that say something
    match g.below(26) {
        0 => { doc.remove(k); }
        1 => { let l = doc[k].clone(); let at = g.below(n + 1); doc.insert(at, l); }
        2 => { let other = g.below(n); doc.swap(k, other); }
        3 => { let at = g.below(doc[k].len() + 1); doc[k].truncate(at); }
        4 => { let l = doc[k].len(); if l > 0 { let at = g.below(l); doc[k].remove(at); } }
        5 => { let at = g.below(doc[k].len() + 1); let c = *g.pick(b" .-+*0A9X'N") as char; doc[k].insert(at, c); }
        6 | 7 => {
            let l = doc[k].len();
            if l > 0 { let at = g.below(l); let c = *g.pick(b" .-+*0A9X'RLGEN5") as char; doc[k].replace_range(at..at + 1, &c.to_string()); }
        }
        8..=12 => {
            // a word becomes another
            let words: Vec<(usize, String)> = word_positions(&doc[k]);
            if words.is_empty() { return; }
            let (at, w) = g.pick(&words).clone();
            let new = match g.below(4) {
                0 => text(g.pick(WRONG)),
                1 => text(g.pick(&["XX", "R1", "C1", "RHS", "UP", "LO", "FX", "SC", "ZZ", "N", "E", "L", "G", "LX", "NN", "x", "COST", "'MARKER'", "'INTORG'", "'INTEND'"])),
                2 => { let other = g.below(n); let ws = word_positions(&doc[other]); if ws.is_empty() { text("Q") } else { g.pick(&ws).1.clone() } }
                _ => if g.chance(50) { w.to_lowercase() } else { format!("{w}X") },
            };
            let end = at + w.len();
            let mut new = new;
            // keep what follows in its columns if possible
            let mut stop = end;
            while new.len() > stop - at && doc[k][stop..].starts_with("  ") { stop += 1; }
            while new.len() < stop - at { new.push(' '); }
            doc[k].replace_range(at..stop, &new);
        }
        13 | 14 => {
            // a word is gone
            let words = word_positions(&doc[k]);
            if words.is_empty() { return; }
            let (at, w) = g.pick(&words).clone();
            let fill = if g.chance(50) { " ".repeat(w.len()) } else { String::new() };
            doc[k].replace_range(at..at + w.len(), &fill);
        }
        15 => { let w = text(g.pick(&["5", "R1 3", "X", "C1", "*"])); doc[k] = format!("{} {}", doc[k], w); }
        16 => {
            // headers
            let heads: Vec<usize> = (0..n).filter(|&i| !doc[i].starts_with(' ') && !doc[i].starts_with('*') && !doc[i].is_empty()).collect();
            if heads.is_empty() { return; }
            let h = *g.pick(&heads);
            match g.below(6) {
                0 => { doc.remove(h); }
                1 => doc[h] = text(g.pick(&["ROWS", "COLUMNS", "RHS", "RANGES", "BOUNDS", "ENDATA", "OBJSENSE", "NAME", "NAME X", "SOS", "QSECTION", "ROWSX", "RHSS", "ROW", "rows"])),
                2 => { let other = *g.pick(&heads); doc.swap(h, other); }
                3 => { let t = doc[h].clone(); let at = g.below(n + 1); doc.insert(at, t); }
                4 => doc[h].push('X'),
                _ => doc[h] = format!(" {}", doc[h]),
            }
        }
        17 => { doc.truncate(k); }
        18 => doc.push(text(g.pick(&["ENDATA", " X R1 5", "* end", "", "ROWS", "garbage"]))),
        19 => {
            // a section moves
            let heads: Vec<usize> = (0..n).filter(|&i| !doc[i].starts_with(' ') && !doc[i].starts_with('*') && !doc[i].is_empty()).collect();
            if heads.len() < 3 { return; }
            let a = g.below(heads.len() - 1);
            let part: Vec<String> = doc.drain(heads[a]..heads[a + 1]).collect();
            let at = *g.pick(&heads);
            let at = if at > heads[a] { at.saturating_sub(part.len()) } else { at }.min(doc.len());
            for (i, l) in part.into_iter().enumerate() { doc.insert(at + i, l); }
        }
        20 => {
            // an entry is repeated later in its section
            let mut at = k + 1;
            while at < n && doc[at].starts_with(' ') && g.chance(70) { at += 1; }
            let l = doc[k].clone();
            doc.insert(at, l);
        }
        21 => {
            // two lines with the same words but another number
            let mut l = doc[k].clone();
            let words = word_positions(&l);
            if let Some((at, w)) = words.last() { l.replace_range(*at..at + w.len(), "7"); }
            doc.insert(k + 1, l);
        }
        22 | 23 => {
            let numbers: Vec<(usize, usize, usize)> = (0..n).flat_map(|i| {
                word_positions(&doc[i]).into_iter().skip(1).filter(|w| w.1.contains(|c: char| c.is_ascii_digit()) && !w.1.contains(|c: char| c.is_ascii_alphabetic())).map(move |w| (i, w.0, w.1.len()))
            }).collect();
            if numbers.is_empty() { return; }
            let (i, at, len) = *g.pick(&numbers);
            let new = text(g.pick(WRONG));
            let mut stop = at + len;
            let mut new = new;
            while new.len() < stop - at { new.push(' '); }
            while new.len() > stop - at && doc[i][stop..].starts_with("  ") { stop += 1; }
            doc[i].replace_range(at..stop, &new);
        }
        24 => {
            // bounds that contradict
            if let Some(h) = doc.iter().position(|l| l.trim_end() == "BOUNDS") {
                if let Some((_, w)) = doc.get(h + 1).map(|l| word_positions(l)).and_then(|w| w.get(2).cloned()) {
                    let t = g.pick(&["UP", "LO", "FX", "FR", "MI", "SC", "UP"]).to_string();
                    let v = g.int(-9, 9).to_string();
                    doc.insert(h + 1 + g.below(2), format!(" {t} {:<8}  {:<8}  {v:>12}", "BND", w));
                }
            }
        }
        _ => doc[k] = doc[k].trim_start().to_string(),
    }
}

pub fn word_positions(s: &str) -> Vec<(usize, String)> {
    let mut out = vec![];
    let mut at = 0;
    for w in s.split(' ') {
        if !w.is_empty() { out.push((at, w.to_string())); }
        at += w.len() + 1;
    }
    out
}

/// Anything may be inserted.
pub fn spoil(g: &mut Rng, text: &mut String) {
    for _ in 0..1 + g.below(4) {
        let chars: Vec<usize> = text.char_indices().map(|c| c.0).chain([text.len()]).collect();
        let at = *g.pick(&chars);
        match g.below(5) {
            0 => text.insert_str(at, *g.pick(&["é", "½", "\u{1F600}", "\0", "\t", "\r", "\u{a0}", "\u{2028}", "漢", "ß"])),
            1 => { let to = *g.pick(&chars); if to > at { text.replace_range(at..to.min(next(&chars, at, 6)), ""); } }
            2 => { if at < text.len() { let e = next(&chars, at, 1); text.replace_range(at..e, *g.pick(&["é", "\t", "\n", "½", "", "\u{0}", "Ω"])); } }
            3 => { let to = next(&chars, at, 1 + g.below(40)); let part = text[at..to].to_string(); let other = *g.pick(&chars); text.insert_str(other, &part); }
            _ => text.insert(at, '\n'),
        }
    }
}
fn next(chars: &[usize], at: usize, k: usize) -> usize {
    let i = chars.iter().position(|&c| c == at).unwrap();
    chars[(i + k).min(chars.len() - 1)]
}
