//! A book of short modules that between them use every production of the grammar, and what lies around them: every text one token away, and every two statements one after the other.

use crate::gen::{self, G};
use crate::parsechecks::{tokens_of, OUTER, VOCAB};
use std::sync::OnceLock;

pub struct Phrase {
    pub text: &'static str,
    pub toks: Vec<String>,
}
pub fn all() -> &'static Vec<Phrase> {
    static P: OnceLock<Vec<Phrase>> = OnceLock::new();
    P.get_or_init(|| {
        include_str!("../corpus/phrases.txt")
            .lines()
            .map(|l| Phrase {
                text: l,
                toks: tokens_of(l)
                    .into_iter()
                    .map(|g| match g {
                        G::T(s) | G::N(s) => s,
                        G::Semi => ";".into(),
                    })
                    .collect(),
            })
            .collect()
    })
}

/// Without white space except where tokens would join, or with a space everywhere.
pub fn join(toks: &[&str], wide: bool) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 && (wide || gen::needs_gap(toks[i - 1], t)) {
            s.push(' ');
        }
        s.push_str(t);
    }
    s
}

fn around(l: usize) -> usize {
    l * (VOCAB.len() + 4) + (l + 1) * VOCAB.len()
}
/// How many texts are one token away from a phrase.
pub fn neighbours() -> u64 {
    static N: OnceLock<u64> = OnceLock::new();
    *N.get_or_init(|| all().iter().map(|p| around(p.toks.len()) as u64).sum())
}
/// One of them.
pub fn neighbour(i: u64, wide: bool) -> String {
    static S: OnceLock<Vec<u64>> = OnceLock::new();
    let sums = S.get_or_init(|| {
        let mut n = 0;
        all()
            .iter()
            .map(|p| {
                let at = n;
                n += around(p.toks.len()) as u64;
                at
            })
            .collect()
    });
    let k = sums.partition_point(|s| *s <= i) - 1;
    let p = &all()[k];
    let mut t: Vec<&str> = p.toks.iter().map(|s| &s[..]).collect();
    edit(&mut t, (i - sums[k]) as usize);
    join(&t, wide)
}
/// Change one token; `i` is reduced to what there is.
pub fn edit<'a>(t: &mut Vec<&'a str>, i: usize) {
    let l = t.len();
    let mut i = i % around(l);
    if i < l * 4 {
        let at = i / 4;
        match i % 4 {
            0 => drop(t.remove(at)),
            1 => t.insert(at, t[at]),
            2 => t.truncate(at),
            _ if at + 1 < l => t.swap(at, at + 1),
            _ => t.extend_from_within(..),
        }
        return;
    }
    i -= l * 4;
    let v = VOCAB[i % VOCAB.len()];
    i /= VOCAB.len();
    if i < l {
        t[i] = v;
    } else {
        t.insert(i - l, v);
    }
}

/// How many texts of the neighbourhood a check reads: all as they are, and a quarter of them, or all, in bodies of several kinds.
pub fn texts(thorough: bool) -> u64 {
    bodies(thorough) + placed() + crate::gen::longest_lists()
}
fn bodies(thorough: bool) -> u64 {
    let n = neighbours();
    if thorough { n * (1 + OUTER.len() as u64) } else { n + n / 4 }
}
/// The feature cases, among them what later editions and other languages have, wherever a statement or an expression may stand.
const AROUND: [&str; 26] = [
    "§", "§;", "§\n", "§\na", "§;a", "a;§", "a\n§", "{}§", "(§)", "[§]", "f(§)", "x=§", "x=(§)", "`${§}`", "x=>§", "({a:§})", "({§})", "class A{§}", "class A{a(){}§}", "{§}", "var §", "export §", "export default §", "§/b/g", "(§)=>a", "for(§;;);",
];
fn placed() -> u64 {
    (crate::work::corpus().len() * (AROUND.len() + OUTER.len())) as u64
}
pub fn text(i: u64, thorough: bool) -> String {
    if i >= bodies(thorough) {
        let (i, c) = ((i - bodies(thorough)) as usize, crate::work::corpus());
        if i as u64 >= placed() {
            return crate::gen::longest_nth(i as u64 - placed());
        }
        let around = AROUND.iter().chain(OUTER.iter()).nth(i / c.len()).unwrap();
        return around.replace('§', &c[i % c.len()]);
    }
    let n = neighbours();
    if i < n {
        return neighbour(i, i % 2 == 0);
    }
    let (i, k) = if thorough { (i % n, (i / n) as usize) } else { ((i - n) * 4 + (i - n) % 4, 1 + ((i - n) as usize % OUTER.len())) };
    in_context(&neighbour(i, i % 3 == 0), k)
}

/// Every phrase in every context that takes statements, or as it is.
pub fn in_context(text: &str, k: usize) -> String {
    if k == 0 {
        text.to_string()
    } else {
        OUTER[(k - 1) % OUTER.len()].replace('§', text)
    }
}

pub const BREAKS: [&str; 6] = ["\n", " ", "/*\n*/", "\r", "/**/", "//\u{2028}"];
/// How many ways there are of putting one phrase after another without its last semicolon.
pub fn pairs(gaps: usize) -> u64 {
    (all().len() * all().len() * gaps) as u64
}
/// The two with the gap between them; and with a semicolon and a line break, if the first ended in a semicolon.
pub fn pair(i: u64) -> (String, String) {
    let n = all().len() as u64;
    let (a, b, g) = (&all()[(i % n) as usize], &all()[(i / n % n) as usize], BREAKS[(i / n / n) as usize]);
    match a.text.strip_suffix(';') {
        Some(x) => (format!("{}{}{}", x, g, b.text), format!("{};\n{}", x, b.text)),
        None => (format!("{}{}{}", a.text, g, b.text), format!("{}\n{}", a.text, b.text)),
    }
}

const INSERTED: [&str; 8] = ["\n", "\r\n", "\u{2029}", "/*\n*/", "//\n", "/*a*/ /*\u{2028}*/", "\u{FEFF}\r", "/**/\n"];
/// How many ways there are of putting a line break between two tokens of a phrase, or in the place of a semicolon.
pub fn breaks() -> u64 {
    static N: OnceLock<u64> = OnceLock::new();
    *N.get_or_init(|| all().iter().map(|p| (p.toks.len() * INSERTED.len() * 3) as u64).sum())
}
/// The phrase with the line break, and the phrase.
pub fn broken(i: u64) -> (String, String) {
    let mut i = i as usize;
    for p in all() {
        let n = p.toks.len() * INSERTED.len() * 3;
        if i < n {
            let t: Vec<&str> = p.toks.iter().map(|s| &s[..]).collect();
            let (at, b, how) = (i / INSERTED.len() / 3, INSERTED[i / 3 % INSERTED.len()], i % 3);
            let (pre, post) = (join(&t[..at], true), join(&t[at..], true));
            let base = join(&t, true);
            return match how {
                0 => (format!("{}{}{}", pre, b, post), base),
                // the rest begins with something else, or is gone
                1 if t[at] == ";" => (format!("{}{}{}", pre, b, join(&t[at + 1..], true)), base),
                1 => (format!("{}{}++c", pre, b), base),
                _ if t[at] == ";" => (format!("{} {}", pre, join(&t[at + 1..], true)), base),
                _ => (format!("{}{}{}{}", pre, b, join(&t[at..at + 1], true), b), base),
            };
        }
        i -= n;
    }
    (String::new(), String::new())
}

const SPACES: [&str; 16] = [
    "", "\t", "\u{B}", "\u{C}", "\u{A0}", "\u{FEFF}", "/**/", "/***/", "/*é日*/", "/*\u{1F600}'`${*/", "/*//*/", "/*<!--*/", "   ", "/* a */ /* b */", "/*/ */", "\u{A0}/*-->*/\u{FEFF}",
];
const LINES: [&str; 22] = [
    "\r", "\r\n", "\u{2028}", "\u{2029}", "//\n", "//a\r", "//é\u{2028}", "//'`${\r\n", "//*\n", "// */\u{2029}", "///\n", "/*\n*/", "/*\r*/", "/*\u{2028}*/", "/*\u{2029}a*/", "/*a\r\nb*/", "\n\n", "\t\n\t", "/**/\n", "\n/**/",
    "/*a*//*\n*/", "//<!--\n",
];
/// How many ways there are of writing one gap of a phrase differently.
pub fn gaps() -> u64 {
    static N: OnceLock<u64> = OnceLock::new();
    *N.get_or_init(|| all().iter().map(|p| ((p.toks.len() + 2) * (SPACES.len() + LINES.len())) as u64).sum())
}
/// The phrase, and the phrase with one gap written differently; or every gap at once.
pub fn respaced(i: u64) -> (String, String) {
    let mut i = i as usize;
    let k = SPACES.len() + LINES.len();
    for p in all() {
        let n = (p.toks.len() + 2) * k;
        if i >= n {
            i -= n;
            continue;
        }
        let t: Vec<&str> = p.toks.iter().map(|s| &s[..]).collect();
        let (at, x) = (i / k, i % k);
        let write = |new: &str, old: &str| {
            let mut s = String::new();
            for g in 0..=t.len() {
                let here = g == at || at == t.len() + 1;
                let mut x = if here { new } else if g == 0 || g == t.len() { "" } else { " " };
                if here && x.is_empty() && g > 0 && g < t.len() && (old == "\n" || gen::needs_gap(t[g - 1], t[g])) {
                    x = " ";
                }
                if x.starts_with('/') && s.ends_with('/') {
                    s.push(' ');
                }
                s.push_str(x);
                s.push_str(t.get(g).unwrap_or(&""));
            }
            s
        };
        return if x < SPACES.len() { (write(" ", ""), write(SPACES[x], "")) } else { (write("\n", "\n"), write(LINES[x - SPACES.len()], "\n")) };
    }
    (String::new(), String::new())
}

/// Beginnings and ends.
pub fn cuts() -> u64 {
    all().iter().map(|p| 2 * p.text.len() as u64).sum()
}
pub fn cut(i: u64) -> String {
    let mut i = i as usize;
    for p in all() {
        let n = p.text.len();
        if i < 2 * n {
            // All ASCII.
            return if i < n { p.text.get(..i) } else { p.text.get(i - n..) }.unwrap_or("").to_string();
        }
        i -= 2 * n;
    }
    String::new()
}
