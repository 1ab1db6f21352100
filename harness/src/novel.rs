//! Words and numbers that stand in the source under test and did not when this was written. They steer the workloads, as a fuzzer's dictionary
//! does: a limit at 4711, a word treated in a way of its own. What is judged is only ever what the code does.

use crate::rng::Rng;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default)]
pub struct Literals {
    pub words: BTreeSet<String>,
    pub numbers: BTreeSet<u64>,
}

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let mut all: Vec<PathBuf> = match std::fs::read_dir(dir) {
        Ok(d) => d.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
        Err(_) => return,
    };
    all.sort();
    for p in all {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().map_or(false, |e| e == "rs") {
            out.push(p);
        }
    }
}

/// The literals of a Rust source.
pub fn scan(src: &str, l: &mut Literals) {
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut before: Option<(u64, usize)> = None; // the last number, and where it ended
    while i < c.len() {
        let x = c[i];
        if x == '/' && at(i + 1) == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if x == '/' && at(i + 1) == '*' {
            i += 2;
            while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                i += 1;
            }
            i += 2;
        } else if x == 'r' && (at(i + 1) == '"' || at(i + 1) == '#' && matches!(at(i + 2), '"' | '#')) && (i == 0 || !(c[i - 1].is_alphanumeric() && c[i - 1] != 'b')) {
            let mut n = 0;
            while at(i + 1 + n) == '#' {
                n += 1;
            }
            let start = i + 2 + n;
            let mut j = start;
            while j < c.len() && !(c[j] == '"' && (0..n).all(|k| at(j + 1 + k) == '#')) {
                j += 1;
            }
            l.words.insert(c[start.min(j)..j.min(c.len())].iter().collect());
            i = j + 1 + n;
        } else if x == '"' {
            let (w, j) = quoted(&c, i + 1, '"');
            l.words.insert(w);
            i = j;
        } else if x == '\'' {
            // a character or a lifetime
            if at(i + 1) == '\\' || at(i + 2) == '\'' {
                let (w, j) = quoted(&c, i + 1, '\'');
                if let Some(ch) = w.chars().next() {
                    if ch as u32 > 126 {
                        l.words.insert(w);
                    }
                }
                i = j;
            } else {
                i += 1;
            }
        } else if x.is_ascii_digit() {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' || at(i) == '.' && at(i + 1).is_ascii_digit() {
                i += 1;
            }
            let t: String = c[start..i].iter().filter(|c| **c != '_').collect();
            if let Some(n) = number(&t) {
                l.numbers.insert(n);
                if let Some((m, end)) = before {
                    let op: String = c[end..start].iter().filter(|c| !c.is_whitespace()).collect();
                    let v = match &*op {
                        "<<" if n < 40 => m.checked_shl(n as u32),
                        "*" => m.checked_mul(n),
                        "+" => m.checked_add(n),
                        "-" => m.checked_sub(n),
                        _ => None,
                    };
                    if let Some(v) = v {
                        l.numbers.insert(v);
                    }
                }
                before = Some((n, i));
            }
        } else if x.is_alphabetic() || x == '_' {
            let start = i;
            while at(i).is_alphanumeric() || at(i) == '_' {
                i += 1;
            }
            // counters that are too narrow
            let t: String = c[start..i].iter().collect();
            match &*t {
                "u8" | "i8" => {
                    l.numbers.insert(if t == "u8" { 256 } else { 128 });
                }
                "u16" | "i16" => {
                    l.numbers.insert(if t == "u16" { 65536 } else { 32768 });
                }
                _ => {}
            }
            // a byte string or byte is read as what follows its b
            if t == "b" && matches!(at(i), '"' | '\'') {
                continue;
            }
        } else {
            i += 1;
        }
    }
}
fn quoted(c: &[char], mut i: usize, q: char) -> (String, usize) {
    let mut w = String::new();
    while i < c.len() && c[i] != q {
        if c[i] == '\\' {
            i += 1;
            match c.get(i).copied().unwrap_or('\0') {
                'n' => w.push('\n'),
                'r' => w.push('\r'),
                't' => w.push('\t'),
                '0' => w.push('\0'),
                'x' => {
                    let h: String = c[i + 1..(i + 3).min(c.len())].iter().collect();
                    w.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    i += 2;
                }
                'u' => {
                    let mut h = String::new();
                    i += 2;
                    while i < c.len() && c[i] != '}' {
                        h.push(c[i]);
                        i += 1;
                    }
                    w.extend(u32::from_str_radix(&h.replace('_', ""), 16).ok().and_then(char::from_u32));
                }
                '\n' => {
                    while c.get(i + 1).map_or(false, |c| c.is_whitespace()) {
                        i += 1;
                    }
                }
                x => w.push(x),
            }
            i += 1;
        } else {
            w.push(c[i]);
            i += 1;
        }
    }
    (w, i + 1)
}
fn number(t: &str) -> Option<u64> {
    let t = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"].iter().find_map(|s| t.strip_suffix(s)).unwrap_or(t);
    for (p, b) in [("0x", 16), ("0o", 8), ("0b", 2)] {
        if let Some(d) = t.strip_prefix(p) {
            return u64::from_str_radix(d, b).ok();
        }
    }
    t.parse().ok().or_else(|| t.trim_end_matches("f64").trim_end_matches("f32").parse::<f64>().ok().filter(|v| v.fract() == 0.0 && *v >= 0.0 && *v < 1e18).map(|v| v as u64))
}

fn source() -> PathBuf {
    std::env::var_os("JSMON_SOURCE").map_or("/repo/src".into(), PathBuf::from)
}
pub fn all() -> Literals {
    let mut l = Literals::default();
    let mut fs = vec![];
    files(&source(), &mut fs);
    for f in fs {
        if let Ok(s) = std::fs::read_to_string(&f) {
            scan(&s, &mut l);
        }
    }
    l
}
/// The list in corpus/known.txt.
pub fn list() -> String {
    let l = all();
    let mut s = String::new();
    for n in &l.numbers {
        s.push_str(&format!("n {}\n", n));
    }
    for w in &l.words {
        s.push_str(&format!("w {}\n", crate::case::escape(w)));
    }
    s
}
fn novel() -> &'static Literals {
    static N: OnceLock<Literals> = OnceLock::new();
    N.get_or_init(|| {
        if cfg!(miri) {
            return Literals::default();
        }
        let mut l = all();
        for k in include_str!("../corpus/known.txt").lines() {
            if let Some(n) = k.strip_prefix("n ") {
                l.numbers.remove(&n.parse().unwrap());
            } else if let Some(w) = k.strip_prefix("w ").and_then(crate::case::unescape) {
                l.words.remove(&w);
            }
        }
        l.words.retain(|w| !w.is_empty() && w.len() < 200);
        l
    })
}
pub fn words() -> &'static [String] {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| novel().words.iter().cloned().collect())
}
/// Those that are names, as far as their characters go.
fn names() -> &'static [String] {
    static W: OnceLock<Vec<String>> = OnceLock::new();
    W.get_or_init(|| {
        let name = |w: &str| w.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_' || c == '$') && w.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b'$');
        words().iter().filter(|w| name(w)).cloned().collect()
    })
}
/// What comes before and after each, too.
pub fn numbers() -> &'static [u64] {
    static W: OnceLock<Vec<u64>> = OnceLock::new();
    W.get_or_init(|| novel().numbers.iter().flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1), n.saturating_add(2)]).collect())
}

/// A new word, once in n, if there are any.
pub fn word(r: &mut Rng, n: usize) -> Option<String> {
    some(r, n, words())
}
/// The same, as a name.
pub fn name(r: &mut Rng, n: usize) -> Option<String> {
    let w = some(r, n, names())?;
    Some(match r.below(10) {
        0 => format!("{}{}", w, r.pick(&["1", "_", "x", "$"])),
        1 => format!("{}{}", r.pick(&["a", "_", "x", "$"]), w),
        2 => w.to_ascii_uppercase(),
        _ => w,
    })
}
fn some(r: &mut Rng, n: usize, from: &[String]) -> Option<String> {
    if from.is_empty() || !r.one_in(n) {
        return None;
    }
    Some(from[r.below(from.len())].clone())
}
/// A new number up to `most`, once in n, if there are any.
pub fn num(r: &mut Rng, n: usize, most: u64) -> Option<usize> {
    if numbers().is_empty() || !r.one_in(n) {
        return None;
    }
    for _ in 0..4 {
        let x = numbers()[r.below(numbers().len())];
        if x > 0 && x <= most {
            return Some(x as usize);
        }
    }
    None
}
