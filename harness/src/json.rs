//! Writing the trace files. A rational is `[n, d]`; a component beyond 31 bits is a string.
use std::fmt::{Display, Write as _};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    B(bool),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl J {
    pub fn write(&self, out: &mut String) {
        match self {
            J::I(v) => write!(out, "{v}").unwrap(),
            J::B(v) => write!(out, "{v}").unwrap(),
            J::S(s) => write_str(s, out),
            J::A(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::O(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    write_str(k, out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
}

fn write_str(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 32 => write!(out, "\\u{:04x}", c as u32).unwrap(),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn component(s: &str) -> J {
    match s.parse::<i64>() {
        Ok(v) if v.unsigned_abs() < (1 << 31) => J::I(v),
        _ => J::S(s.to_string()),
    }
}

/// A rational from its textual form `n` or `n/d`.
pub fn rat(v: &impl Display) -> J {
    let s = v.to_string();
    match s.split_once('/') {
        Some((n, d)) => J::A(vec![component(n), component(d)]),
        None => J::A(vec![component(&s), J::I(1)]),
    }
}

pub fn opt<T: Display>(v: &Option<T>) -> J {
    match v {
        None => J::A(vec![]),
        Some(v) => J::A(vec![rat(v)]),
    }
}

pub fn vec<T: Display>(v: &[T]) -> J {
    J::A(v.iter().map(|x| rat(x)).collect())
}

pub fn mat<T: Display>(v: &[Vec<T>]) -> J {
    J::A(v.iter().map(|x| vec(x)).collect())
}

pub fn ints(v: &[usize]) -> J {
    J::A(v.iter().map(|&x| J::I(x as i64)).collect())
}

pub fn s(v: impl Into<String>) -> J {
    J::S(v.into())
}

/// Trace file: one object per line.
pub struct Out {
    file: std::io::BufWriter<std::fs::File>,
    pub lines: usize,
}

impl Out {
    pub fn new(path: &str) -> Self {
        Self { file: std::io::BufWriter::new(std::fs::File::create(path).expect("trace file")), lines: 0 }
    }
    pub fn line(&mut self, j: &J) {
        use std::io::Write as _;
        let mut t = j.text();
        t.push('\n');
        self.file.write_all(t.as_bytes()).unwrap();
        self.lines += 1;
    }
    pub fn finish(mut self) {
        use std::io::Write as _;
        self.file.flush().unwrap();
    }
}

/// A sparse vector as it is represented.
pub fn sparse<F: Display + relp_num::NonZero, C>(v: &relp::data::linear_algebra::vector::SparseVector<F, C>) -> J
where
    F: relp::data::linear_algebra::traits::SparseElement<C>,
    C: relp::data::linear_algebra::traits::SparseComparator,
{
    use relp::data::linear_algebra::vector::Vector;
    J::O(vec![
        ("len", J::I(Vector::len(v) as i64)),
        ("i", J::A(v.iter().map(|(i, _)| J::I(*i as i64)).collect())),
        ("v", J::A(v.iter().map(|(_, x)| rat(x)).collect())),
    ])
}

/// Read a JSON text (plans written by the specification).
pub fn parse(text: &str) -> J {
    let b: Vec<char> = text.chars().collect();
    let mut k = 0;
    let v = value(&b, &mut k);
    v
}

fn skip(b: &[char], k: &mut usize) { while *k < b.len() && b[*k].is_whitespace() { *k += 1; } }

fn value(b: &[char], k: &mut usize) -> J {
    skip(b, k);
    match b[*k] {
        '[' => {
            *k += 1;
            let mut v = vec![];
            loop {
                skip(b, k);
                if b[*k] == ']' { *k += 1; return J::A(v); }
                if b[*k] == ',' { *k += 1; }
                skip(b, k);
                if b[*k] == ']' { *k += 1; return J::A(v); }
                v.push(value(b, k));
            }
        }
        '{' => {
            *k += 1;
            let mut v: Vec<(&'static str, J)> = vec![];
            loop {
                skip(b, k);
                match b[*k] { '}' => { *k += 1; return J::O(v); } ',' => { *k += 1; } _ => {} }
                skip(b, k);
                let key = match value(b, k) { J::S(s) => intern(s), _ => panic!("key") };
                skip(b, k);
                *k += 1; // :
                v.push((key, value(b, k)));
            }
        }
        '"' => {
            *k += 1;
            let mut s = String::new();
            while b[*k] != '"' {
                if b[*k] == '\\' {
                    *k += 1;
                    s.push(match b[*k] { 'n' => '\n', 't' => '\t', 'r' => '\r', c => c });
                } else { s.push(b[*k]); }
                *k += 1;
            }
            *k += 1;
            J::S(s)
        }
        't' => { *k += 4; J::B(true) }
        'f' => { *k += 5; J::B(false) }
        _ => {
            let from = *k;
            while *k < b.len() && (b[*k].is_ascii_digit() || b[*k] == '-') { *k += 1; }
            J::I(b[from..*k].iter().collect::<String>().parse().expect("number"))
        }
    }
}

fn intern(s: String) -> &'static str {
    use std::sync::Mutex;
    static KEYS: Mutex<Vec<&'static str>> = Mutex::new(vec![]);
    let mut keys = KEYS.lock().unwrap();
    if let Some(k) = keys.iter().find(|k| **k == s) { return k; }
    let k: &'static str = Box::leak(s.into_boxed_str());
    keys.push(k);
    k
}

impl J {
    pub fn get(&self, key: &str) -> &J {
        match self { J::O(v) => &v.iter().find(|(k, _)| *k == key).unwrap_or_else(|| panic!("no {key}")).1, _ => panic!("not an object") }
    }
    pub fn items(&self) -> &[J] { match self { J::A(v) => v, _ => panic!("not a list") } }
    pub fn int(&self) -> i64 { match self { J::I(v) => *v, _ => panic!("not a number") } }
    pub fn str(&self) -> &str { match self { J::S(v) => v, _ => panic!("not a string") } }
}
