//! Workloads: random programs as token lists with intended semicolons, literals of every kind, trivia, hostile text, and mutators.

use crate::reflex;
use crate::novel;
use crate::rng::Rng;
use std::cell::Cell;

#[derive(Clone, Debug, PartialEq)]
pub enum G {
    /// a token
    T(String),
    /// a token before which no line break may come
    N(String),
    /// a semicolon that automatic insertion may supply
    Semi,
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub out: Vec<G>,
    names: usize,
    used: u32,
    budget: isize,
    depth: usize,
    in_gen: bool,
    in_async: bool,
    in_func: bool,
    in_method: bool,
    in_ctor: bool,
    in_loop: bool,
    in_switch: bool,
    no_in: bool,
    labels: Vec<(String, bool)>,
    declared: Vec<String>,
    pub o: Opts,
}

/// What to favour.
#[derive(Clone, Copy, Debug)]
pub struct Opts {
    /// percent of names that look like contextual keywords
    pub odd_names: usize,
    /// percent of literals that are elaborate
    pub odd_literals: usize,
    pub slashes: usize,
    pub templates: usize,
    pub functions: usize,
    pub for_heads: usize,
    pub restricted: usize,
    pub modules: usize,
}
impl Opts {
    pub fn plain() -> Opts {
        Opts { odd_names: 6, odd_literals: 12, slashes: 5, templates: 5, functions: 8, for_heads: 8, restricted: 8, modules: 6 }
    }
    pub fn random(r: &mut Rng) -> Opts {
        let mut o = Opts::plain();
        for _ in 0..2 {
            match r.below(8) {
                0 => o.odd_names = 40,
                1 => o.odd_literals = 60,
                2 => o.slashes = 35,
                3 => o.templates = 30,
                4 => o.functions = 35,
                5 => o.for_heads = 40,
                6 => o.restricted = 40,
                _ => o.modules = 40,
            }
        }
        o
    }
}

const NAMES: [&str; 24] = [
    "a", "b", "c", "d", "e", "f", "g", "i", "n", "x", "y", "z", "foo", "bar", "_", "$", "A", "a1", "$0", "_x", "value", "obj", "T9", "the_long_Name_42",
];
/// Not reserved, but special somewhere.
const ODD: [&str; 30] = [
    "async", "of", "get", "set", "from", "as", "target", "constructor", "undefined", "eval2", "inn", "typeofx", "letx", "yieldx", "awaiting", "newx", "thisx",
    "nul", "truee", "functionx", "classy", "dob", "iff", "instanceofx", "e1", "x0", "defaultx", "returned", "NaN", "use",
];
/// Special somewhere, and good names everywhere.
const CONTEXTUAL: [&str; 12] = ["async", "of", "get", "set", "from", "as", "target", "constructor", "name", "prototype", "meta", "of_"];
/// Any of these may follow a dot or name a property.
const WORDS: [&str; 44] = [
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "finally", "for",
    "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while",
    "with", "yield", "await", "enum", "null", "true", "false", "let", "static", "get", "set", "async", "of",
];

/// The longest lexeme `long` may make; 0 makes none.
fn longest() -> usize {
    if cfg!(miri) {
        0
    } else {
        1 << 16
    }
}
/// A length that a buffer, counter or table may not have been made for.
pub fn long_len(r: &mut Rng) -> usize {
    let most = if !novel::numbers().is_empty() && r.one_in(4) { 70_000 } else { 5_000 };
    if let Some(n) = novel::num(r, 2, most) {
        return n;
    }
    let k = if r.one_in(6) { r.range(12, 16) } else { r.range(4, 12) };
    let n = match r.below(4) {
        0 => (1usize << k) + r.below(5) - 2,
        1 => (1usize << k) + r.below(1 << k),
        2 => r.choose(&[100, 127, 128, 255, 256, 300, 1000, 1024, 2000, 4096, 5000, 10000]) + r.below(3),
        _ => r.range(1, 1 << k),
    };
    n.min(longest())
}
/// At least `n` bytes: the given pieces, repeated or mixed.
pub fn long(r: &mut Rng, pieces: &[&str], n: usize) -> String {
    let mut s = String::with_capacity(n + 16);
    s.push_str(r.pick(pieces));
    let one = r.pick(pieces);
    let mix = r.below(3);
    while s.len() < n {
        if mix == 0 || (mix == 1 && r.one_in(16)) {
            s.push_str(r.pick(pieces));
        } else {
            s.push_str(one);
        }
    }
    s.push_str(r.pick(pieces));
    s
}
thread_local!(static LONGER: Cell<Option<usize>> = const { Cell::new(None) });
/// Run `f` with one lexeme in a few made long.
pub fn longer<T>(one_in: usize, f: impl FnOnce() -> T) -> T {
    LONGER.with(|l| l.set(Some(one_in)));
    let t = f();
    LONGER.with(|l| l.set(None));
    t
}
/// Now and then, a length for a long lexeme.
fn lengthy(r: &mut Rng, one_in: usize) -> Option<usize> {
    if longest() > 0 && r.one_in(LONGER.with(|l| l.get()).unwrap_or(one_in)) {
        Some(long_len(r))
    } else {
        None
    }
}

pub fn name(r: &mut Rng, odd: usize) -> String {
    if let Some(w) = novel::name(r, 4) {
        return w;
    }
    if odd >= 40 {
        if let Some(n) = lengthy(r, 250) {
            return format!("{}{}", r.pick(&["a", "$", "_", "get", "in"]), long(r, &["a", "Z", "_", "$", "0", "9", "name", "x1"], n));
        }
    }
    if r.pct(odd) {
        r.pick(&ODD).to_string()
    } else {
        r.pick(&NAMES).to_string()
    }
}

fn digits(r: &mut Rng, set: &str, lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let b = set.as_bytes();
    (0..n).map(|_| b[r.below(b.len())] as char).collect()
}

/// A well-formed numeric literal.
pub fn number(r: &mut Rng, odd: bool) -> String {
    if let Some(n) = novel::num(r, 8, u64::MAX) {
        return match r.below(6) {
            0 => format!("0x{:x}", n),
            1 => format!("{}.5", n),
            2 => format!("0b{:b}", n),
            3 => format!("0o{:o}", n),
            _ => n.to_string(),
        };
    }
    if !odd {
        return r.below(1000).to_string();
    }
    if let Some(n) = lengthy(r, 150) {
        let n = if r.one_in(2) { n.min(280) } else { n };
        let d = ["0", "1", "7", "9", "12345", "00"];
        return match r.below(8) {
            0 => format!("1{}", long(r, &d, n)),
            1 => format!("{}.{}", r.below(20), long(r, &d, n)),
            2 => format!(".{}", long(r, &d, n)),
            3 => format!("0.{}{}", "0".repeat(n), 1 + r.below(999)),
            4 => format!("0x{}", long(r, &["0", "f", "A", "1"], n)),
            5 => format!("0o{}", long(r, &["0", "7", "1"], n)),
            6 => format!("0b{}", long(r, &["0", "1"], n)),
            _ => format!("1{}{}e-{}", "0".repeat(n), r.pick(&["", ".", ".5"]), n),
        };
    }
    let exp = |r: &mut Rng| {
        if r.one_in(2) {
            String::new()
        } else {
            let d = match r.below(8) {
                0 => digits(r, "0123456789", 3, 14),
                1 => format!("0{}", r.below(40)),
                2 => format!("00{}", digits(r, "0123456789", 1, 2)),
                _ => r.below(60).to_string(),
            };
            format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "", "+", "-"]), d)
        }
    };
    let int = |r: &mut Rng| {
        if r.one_in(5) {
            "0".to_string()
        } else {
            let n = if r.one_in(10) { 30 } else { 15 };
            format!("{}{}", digits(r, "123456789", 1, 1), digits(r, "0123456789", 0, n))
        }
    };
    match r.below(11) {
        0 => format!("0{}{}", r.pick(&["x", "X"]), digits(r, "0123456789abcdefABCDEF", 1, 13)),
        1 => format!("0{}{}", r.pick(&["x", "X"]), digits(r, "0123456789abcdefABCDEF", 1, 30)),
        2 => format!("0{}{}", r.pick(&["o", "O"]), digits(r, "01234567", 1, 18)),
        3 => format!("0{}{}", r.pick(&["b", "B"]), digits(r, "01", 1, 55)),
        4 | 5 => format!("{}{}", int(r), exp(r)),
        6 => format!("{}.{}", int(r), exp(r)),
        7 | 8 => format!("{}.{}{}", int(r), digits(r, "0123456789", 1, 20), exp(r)),
        9 => {
            let z = "0".repeat(r.below(12));
            format!(".{}{}{}", z, digits(r, "0123456789", 1, 20), exp(r))
        }
        _ => r.pick(&["0", "1", "9007199254740991", "9007199254740992", "4503599627370497", "0.1", "1e21", "5e-7", ".5", "5.", "0.", "0e0", "0xFf", "0b1", "0O7"]).to_string(),
    }
}

const BITS: [&str; 40] = [
    "a", "Z", "0", "9", " ", "  ", "\t", ".", ",", "(", ")", "{", "}", "[", "]", "/", "//", "/*", "*/", "*", "$", "${", "$$", "+", "<!--", "-->", "=", "=>", ";",
    "é", "日本", "\u{1F600}", "\u{FEFF}", "\u{A0}", "'", "\"", "`", "|", "#", "@",
];

pub fn string(r: &mut Rng, odd: bool) -> String {
    let q = r.pick(&["'", "\""]);
    if let Some(w) = novel::word(r, 6).filter(|w| !w.contains(['\n', '\r', '\\']) && !w.contains(q)) {
        return format!("{}{}{}{}{}", q, r.pick(&["", "", "a ", "é"]), w, r.pick(&["", "", " a", "9"]), q);
    }
    if !odd {
        return format!("{}{}{}", q, r.pick(&["", "a", "use strict", "foo", "x y", "./mod.js"]), q);
    }
    let mut s = q.to_string();
    if let Some(n) = lengthy(r, 200) {
        let other = if q == "'" { "\"" } else { "'" };
        s.push_str(&long(r, &["a", " ", "é", "日", "\u{1F600}", "\\\\", "\\n", "\\\n", "\\'", "\\\"", "\\x41", "\\u0041", "\\u{41}", "//", "/*", "`", "${", "xyz", other], n));
        s.push_str(q);
        return s;
    }
    for _ in 0..r.below(8) {
        if r.one_in(3) {
            let e = r.pick(&[
                "\\n", "\\t", "\\\\", "\\'", "\\\"", "\\0", "\\x41", "\\xfF", "\\u0041", "\\u{1F600}", "\\u{0}", "\\u{000000041}", "\\\n", "\\\r", "\\\r\n", "\\\u{2028}",
                "\\\u{2029}", "\\`", "\\/", "\\$", "\\a", "\\é", "\\日", "\\ ", "\\-", "\\z", "\\\u{1F600}",
            ]);
            if r.one_in(25) {
                // as many digits as one likes; now and then more than a character has
                let n = if r.one_in(4) { long_len(r) } else { r.range(1, 300) };
                let d = if r.one_in(8) { r.pick(&["f", "1", "10FFFF", "11"]) } else { "0" };
                s.push_str(&format!("\\u{{{}{}}}", d.repeat(n), r.pick(&["41", "0", "1F600", "10FFFF", "e9"])));
            } else if e == "\\0" {
                s.push_str("\\0x");
            } else {
                s.push_str(e);
            }
        } else {
            let b = r.pick(&BITS);
            if b != q {
                s.push_str(b);
            }
        }
    }
    s.push_str(q);
    s
}

/// A string, template, regular expression, comment or number of many pieces with one flaw among them, mostly closed.
pub fn flawed(r: &mut Rng) -> String {
    let n = r.below(5);
    let m = r.below(5);
    let kind = r.below(8);
    let (open, close, good, bad): (&str, &str, &[&str], &[&str]) = match kind {
        0..=4 => (
            if kind < 3 { "'" } else { "\"" },
            if kind < 3 { "'" } else { "\"" },
            &[
                "a", "9", " ", "é", "\u{1F600}", "\\\n", "\\\r", "\\\r\n", "\\\u{2028}", "\\\u{2029}", "\\\\", "\\'", "\\\"", "\\n", "\\0", "\\x4f", "\\u00e9", "\\u{1f600}", "\\u{0}", "\\u{00000061}", "`", "//", "/*", "}", "{", "x", "u",
            ],
            &[
                "\n", "\r", "\r\n", "\n\n", "\\x", "\\x4", "\\xg1", "\\x1g", "\\x{41}", "\\u", "\\u1", "\\u123", "\\u12g4", "\\ug123", "\\u{", "\\u{}", "\\u{g}", "\\u{1", "\\u{12g}", "\\u{ 1}", "\\u{1 }", "\\u-1", "\\x-1", "\\x 1", "\\\n\n", "\\\r\r",
                "\\\r\n\n", "\\\r\n\r", "\\\n\r", "\\\\\n", "\\\u{2028}\n", "\\u{1}}\r", "\\\n\\x",
            ],
        ),
        5 => ("`", "`", &["a", "\n", "\\`", "\\\\", "$", "{", "\\$", "\\n", "é", "$a", "}"], &["\\`", "${", "\\", "$${"]),
        6 => (
            "/a",
            "/",
            &["a", "\\/", "\\\\", "[a]", "[/]", "[\\]]", "[[]", "(a)", "é", "\\[", "\\]", "=", "*", " ", "'"],
            &["\n", "\r", "\r\n", "\\\n", "\\\r", "[", "[\n]", "[\r]", "[\\\n]", "\\", "[\\", "[\\]"],
        ),
        _ => ("/*", "*/", &["*", "a", "/", "\n", "\r\n", "**", "/*", "//", " ", "é"], &["/", "* /", "*\\/", "*\n/"]),
    };
    let mut s = String::from(open);
    for _ in 0..n {
        s.push_str(good[r.below(good.len())]);
    }
    s.push_str(bad[r.below(bad.len())]);
    for _ in 0..m {
        s.push_str(good[r.below(good.len())]);
    }
    if !r.one_in(5) {
        s.push_str(close);
    }
    s
}

/// The inside of a template piece, without `${` and backquote.
pub fn template_chars(r: &mut Rng, odd: bool) -> String {
    if let Some(w) = novel::word(r, 6).filter(|w| !w.contains(['`', '$', '\\'])) {
        return format!("{}{}{}", r.pick(&["", "", "a ", "\n"]), w, r.pick(&["", "", " a", "\n"]));
    }
    if !odd {
        return r.pick(&["", "a", " x ", "foo"]).to_string();
    }
    let mut s = String::new();
    if let Some(n) = lengthy(r, 200) {
        let pieces = ["a", " ", "\n", "\r\n", "\u{2028}", "é", "日", "\u{1F600}", "\\`", "\\\\", "\\${", "$ ", "{", "}", "'", "/", "xyz"];
        return long(r, &pieces, n);
    }
    for _ in 0..r.below(7) {
        if r.one_in(3) {
            s.push_str(r.pick(&["\\`", "\\${", "\\\\", "$\\{", "\\n", "\\x41", "\\u0041", "\\u{41}", "\\\n", "\\\r\n", "\\$", "\\é", "\\\u{2028}"]));
        } else {
            let b = r.pick(&[
                "a", " ", "\n", "\r\n", "\r", "\u{2028}", "$", "$$", "{", "}", "{}", "'", "\"", "//", "/*", "*/", "/", "é", "日", "\u{1F600}", "$ {", "1", "}}",
            ]);
            if b.starts_with('{') && s.ends_with('$') && !s.ends_with("\\$") {
                s.push(' ');
            }
            s.push_str(b);
        }
    }
    // A trailing dollar would join the delimiter that follows.
    if s.ends_with('$') {
        s.push('_');
    }
    s
}

pub fn regex(r: &mut Rng, odd: bool) -> String {
    if let Some(w) = novel::word(r, 6).filter(|w| w.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_' || b == b' ' || b == b'=')) {
        return format!("/{}{}/g", w, r.pick(&["", "a", "|b"]));
    }
    if !odd {
        return r.pick(&["/a/", "/x/g", "/[a]/", "/a|b/i"]).to_string();
    }
    if let Some(n) = lengthy(r, 200) {
        let body = long(r, &["a", "\\/", "[/]", "\\\\", "[^\\]/]", "(a)", "|", "é", "日", " ", "[[]", "'", "x0"], n);
        let flags = if r.one_in(4) { long(r, &["g", "i", "m"], n) } else { "g".to_string() };
        return format!("/a{}/{}", body, flags);
    }
    let mut s = String::from("/");
    let n = r.range(1, 6);
    let mut atom = false;
    for _ in 0..n {
        match r.below(12) {
            0 => {
                s.push_str(r.pick(&["\\/", "\\\\", "\\[", "\\]", "\\.", "\\d", "\\w", "\\*", "\\n", "\\(", "\\$", "\\{", "\\}"]));
                atom = true;
            }
            1 | 2 => {
                s.push_str(r.pick(&["[/]", "[^/]", "[\\]/]", "[[]", "[\\\\]", "[(]", "[`]", "['\"]", "[{}]", "[*+]", "[é]"]));
                atom = true;
            }
            3 if atom => {
                s.push_str(r.pick(&["*", "+", "?", "*?"]));
                atom = false;
            }
            4 => {
                s.push_str(r.pick(&["(a)", "(b|c)", "(\\/)"]));
                atom = true;
            }
            5 => {
                s.push_str("|");
                atom = false;
            }
            6 => {
                s.push_str(r.pick(&["'", "\"", "`", "=", "#", ";", ",", "<!--", "é", "日本", "\u{1F600}"]));
                atom = true;
            }
            _ => {
                s.push_str(r.pick(&["a", "b", "0", " ", ".", "-", "z"]));
                atom = true;
            }
        }
    }
    if s == "/" || s.starts_with("/*") {
        s = "/a".to_string() + &s[1..];
    }
    s.push('/');
    s.push_str(r.pick(&["", "", "g", "i", "gi", "m", "y", "gimy", "gimsuy", "su"]));
    s
}

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng, o: Opts, budget: isize) -> Gen<'r> {
        Gen {
            r,
            out: vec![],
            names: 0,
            used: 0,
            budget,
            depth: 0,
            in_gen: false,
            in_async: false,
            in_func: false,
            in_method: false,
            in_ctor: false,
            in_loop: false,
            in_switch: false,
            no_in: false,
            labels: vec![],
            declared: vec![],
            o,
        }
    }
    pub fn t(&mut self, s: &str) {
        self.budget -= 1;
        self.out.push(G::T(s.to_string()));
    }
    fn n(&mut self, s: &str) {
        self.budget -= 1;
        self.out.push(G::N(s.to_string()));
    }
    fn semi(&mut self) {
        self.out.push(G::Semi);
    }
    fn odd(&mut self) -> bool {
        let p = self.o.odd_literals;
        self.r.pct(p)
    }
    fn fresh(&mut self) -> String {
        self.names += 1;
        if self.r.pct(self.o.odd_names) && self.r.one_in(2) {
            // Words that are special elsewhere, each at most once.
            let i = self.r.below(CONTEXTUAL.len());
            if self.used & 1 << i == 0 {
                self.used |= 1 << i;
                return CONTEXTUAL[i].to_string();
            }
        }
        if self.r.pct(self.o.odd_names) && self.names < 12 {
            format!("{}{}", self.r.pick(&["async", "of", "get", "let", "in", "x", "_", "$"]), self.names)
        } else {
            format!("v{}", self.names)
        }
    }
    fn bind(&mut self) {
        let n = self.fresh();
        self.declared.push(n.clone());
        self.t(&n);
    }
    fn ident(&mut self) {
        let n = if !self.declared.is_empty() && self.r.one_in(2) {
            self.declared[self.r.below(self.declared.len())].clone()
        } else {
            name(self.r, self.o.odd_names)
        };
        self.t(&n);
    }
    fn small(&self) -> bool {
        self.budget <= 0 || self.depth > 14
    }

    // ---- module level

    pub fn module(&mut self) {
        while self.budget > 0 {
            if self.r.pct(self.o.modules) {
                self.module_item();
            } else {
                self.list_item();
            }
        }
    }
    fn module_item(&mut self) {
        if self.r.one_in(2) {
            self.t("import");
            match self.r.below(6) {
                0 => {}
                1 => {
                    self.bind();
                    self.t("from");
                }
                2 => {
                    self.t("*");
                    self.t("as");
                    self.bind();
                    self.t("from");
                }
                3 => {
                    self.bind();
                    self.t(",");
                    self.t("*");
                    self.t("as");
                    self.bind();
                    self.t("from");
                }
                k => {
                    if k == 4 {
                        self.bind();
                        self.t(",");
                    }
                    self.t("{");
                    let n = self.r.below(3);
                    for i in 0..n {
                        if self.r.one_in(2) {
                            let w = if self.r.one_in(2) { self.r.pick(&WORDS) } else { "as" };
                            self.t(w);
                            self.t("as");
                        }
                        self.bind();
                        if i + 1 < n || self.r.one_in(3) {
                            self.t(",");
                        }
                    }
                    self.t("}");
                    self.t("from");
                }
            }
            let s = string(self.r, false);
            self.t(&s);
            self.semi();
            return;
        }
        self.t("export");
        match self.r.below(11) {
            0 => {
                self.t("*");
                self.t("from");
                self.t("'m'");
                self.semi();
            }
            1 | 2 => {
                self.t("{");
                let n = self.r.below(3);
                let from = self.r.one_in(2);
                for i in 0..n {
                    if from || self.declared.is_empty() {
                        let w = if self.r.one_in(2) { self.r.pick(&WORDS) } else { "x" };
                        self.t(w);
                    } else {
                        let d = self.declared[self.r.below(self.declared.len())].clone();
                        self.t(&d);
                    }
                    self.t("as");
                    let f = self.fresh();
                    self.t(&f);
                    if i + 1 < n || self.r.one_in(3) {
                        self.t(",");
                    }
                }
                self.t("}");
                if from {
                    self.t("from");
                    self.t("'m'");
                }
                self.semi();
            }
            3 => self.var_statement(),
            4 => self.lexical(),
            5 => self.class(1),
            6 => self.function(1),
            k => {
                self.t("default");
                match k {
                    7 => self.function(2),
                    8 => self.class(2),
                    9 => {
                        let s = self.out.len();
                        self.assign();
                        let _ = s;
                        self.semi();
                    }
                    _ => {
                        self.function(0);
                    }
                }
            }
        }
    }

    // ---- statements

    pub fn list_item(&mut self) {
        let f = self.o.functions;
        if self.r.pct(f) {
            match self.r.below(4) {
                0 => self.class(1),
                _ => self.function(1),
            }
        } else if self.r.one_in(7) {
            self.lexical();
        } else {
            self.statement();
        }
    }
    fn lexical(&mut self) {
        let konst = self.r.one_in(2);
        self.t(if konst { "const" } else { "let" });
        let n = self.r.range(1, 3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.r.one_in(4) {
                self.pattern();
                self.t("=");
                self.assign();
            } else {
                self.bind();
                if konst || self.r.one_in(2) {
                    self.t("=");
                    self.assign();
                }
            }
        }
        self.semi();
    }
    fn var_statement(&mut self) {
        self.t("var");
        let n = self.r.range(1, 3);
        for i in 0..n {
            if i > 0 {
                self.t(",");
            }
            if self.r.one_in(4) {
                self.pattern();
                self.t("=");
                self.assign();
            } else {
                self.bind();
                if self.r.one_in(2) {
                    self.t("=");
                    self.assign();
                }
            }
        }
        self.semi();
    }
    /// A binding pattern.
    fn pattern(&mut self) {
        self.depth += 1;
        if self.r.one_in(2) {
            self.t("[");
            let n = self.r.below(4);
            for i in 0..n {
                if self.r.one_in(5) {
                    self.t(",");
                }
                if i + 1 == n && self.r.one_in(4) {
                    self.t("...");
                    if self.r.one_in(4) && !self.small() {
                        self.pattern();
                    } else {
                        self.bind();
                    }
                    break;
                }
                self.element();
                if i + 1 < n || self.r.one_in(4) {
                    self.t(",");
                }
            }
            self.t("]");
        } else {
            self.t("{");
            let n = self.r.below(4);
            for i in 0..n {
                match self.r.below(4) {
                    0 | 1 => {
                        self.bind();
                        if self.r.one_in(3) {
                            self.t("=");
                            self.with_in();
                        }
                    }
                    _ => {
                        self.prop_name();
                        self.t(":");
                        self.element();
                    }
                }
                if i + 1 < n || self.r.one_in(4) {
                    self.t(",");
                }
            }
            self.t("}");
        }
        self.depth -= 1;
    }
    fn element(&mut self) {
        if self.r.one_in(4) && !self.small() {
            self.pattern();
        } else {
            self.bind();
        }
        if self.r.one_in(3) {
            self.t("=");
            self.with_in();
        }
    }
    fn with_in(&mut self) {
        let o = self.no_in;
        self.no_in = false;
        self.assign();
        self.no_in = o;
    }
    fn expr_in(&mut self) {
        let o = self.no_in;
        self.no_in = false;
        self.expr();
        self.no_in = o;
    }
    fn paren_expr(&mut self) {
        self.t("(");
        self.expr_in();
        self.t(")");
    }
    pub fn block(&mut self) {
        self.t("{");
        self.depth += 1;
        let n = if self.small() { self.r.below(2) } else { self.r.below(4) };
        for _ in 0..n {
            self.list_item();
        }
        self.depth -= 1;
        self.t("}");
    }
    fn body(&mut self) {
        // Statement position, not a list.
        let l = self.in_loop;
        self.in_loop = true;
        self.statement();
        self.in_loop = l;
    }

    pub fn statement(&mut self) {
        self.depth += 1;
        if self.small() {
            match self.r.below(3) {
                0 => self.t(";"),
                _ => {
                    self.ident();
                    self.semi();
                }
            }
            self.depth -= 1;
            return;
        }
        if self.r.pct(self.o.for_heads) {
            self.for_statement();
            self.depth -= 1;
            return;
        }
        if self.r.pct(self.o.restricted) {
            self.restricted();
            self.depth -= 1;
            return;
        }
        match self.r.below(30) {
            0 => self.block(),
            1 => self.t(";"),
            2 | 3 => self.var_statement(),
            4 | 5 => {
                self.t("if");
                self.paren_expr();
                self.statement();
                if self.r.one_in(2) {
                    self.t("else");
                    self.statement();
                }
            }
            6 => {
                self.t("while");
                self.paren_expr();
                self.body();
            }
            7 => {
                self.t("do");
                self.body();
                self.t("while");
                self.paren_expr();
                // The semicolon is inserted even on the same line.
                if self.r.one_in(2) {
                    self.t(";");
                }
            }
            8 => self.for_statement(),
            9 => self.restricted(),
            10 => {
                self.t("switch");
                self.paren_expr();
                self.t("{");
                let s = self.in_switch;
                self.in_switch = true;
                let n = self.r.below(4);
                let d = self.r.below(6);
                for i in 0..n {
                    if i == d {
                        self.t("default");
                    } else {
                        self.t("case");
                        self.expr_in();
                    }
                    self.t(":");
                    for _ in 0..self.r.below(3) {
                        self.list_item();
                    }
                }
                self.in_switch = s;
                self.t("}");
            }
            11 => {
                self.t("throw");
                self.no_newline(|s| s.expr_in());
                self.semi();
            }
            12 | 13 => {
                self.t("try");
                self.block();
                let k = self.r.below(3);
                if k != 0 {
                    self.t("catch");
                    self.t("(");
                    if self.r.one_in(3) {
                        self.pattern();
                    } else {
                        self.bind();
                    }
                    self.t(")");
                    self.block();
                }
                if k != 1 {
                    self.t("finally");
                    self.block();
                }
            }
            14 => {
                self.t("debugger");
                self.semi();
            }
            15 => {
                let l = self.fresh();
                self.t(&l);
                self.t(":");
                let looped = self.r.one_in(2);
                self.labels.push((l, looped));
                if looped {
                    match self.r.below(3) {
                        0 => {
                            self.t("while");
                            self.paren_expr();
                            self.body();
                        }
                        1 => self.for_statement(),
                        _ => {
                            self.t("do");
                            self.body();
                            self.t("while");
                            self.paren_expr();
                            self.t(";");
                        }
                    }
                } else {
                    self.statement();
                }
                self.labels.pop();
            }
            _ => {
                self.expr_statement();
            }
        }
        self.depth -= 1;
    }
    fn expr_statement(&mut self) {
        let at = self.out.len();
        self.expr_in();
        // Statements may not start with these.
        if let Some(G::T(s)) = self.out.get(at) {
            if s == "{" || s == "function" || s == "class" || s == "async" || s == "let" {
                self.out.insert(at, G::T("(".into()));
                self.t(")");
            }
        }
        self.semi();
    }
    fn no_newline(&mut self, f: impl FnOnce(&mut Self)) {
        let at = self.out.len();
        f(self);
        if let Some(G::T(s)) = self.out.get(at).cloned() {
            self.out[at] = G::N(s);
        }
    }
    /// No line break before the token just written.
    fn newest_stays(&mut self) {
        if let Some(G::T(s)) = self.out.pop() {
            self.out.push(G::N(s));
        }
    }
    fn restricted(&mut self) {
        match self.r.below(6) {
            0 | 1 if self.in_func => {
                self.t("return");
                if self.r.one_in(2) {
                    self.no_newline(|s| s.expr_in());
                }
                self.semi();
            }
            2 if self.in_loop || self.in_switch => {
                self.t("break");
                self.semi();
            }
            3 if self.in_loop => {
                self.t("continue");
                self.semi();
            }
            4 if !self.labels.is_empty() => {
                let k = self.r.below(self.labels.len());
                let (l, looped) = self.labels[k].clone();
                let again = looped && self.in_loop && self.r.one_in(2);
                self.t(if again { "continue" } else { "break" });
                self.n(&l);
                self.semi();
            }
            5 => {
                self.t("throw");
                self.no_newline(|s| s.expr_in());
                self.semi();
            }
            _ => {
                self.ident();
                let op = self.r.pick(&["++", "--"]);
                self.n(op);
                self.semi();
            }
        }
    }
    fn for_statement(&mut self) {
        self.t("for");
        self.t("(");
        let (no_in, _) = (self.no_in, ());
        match self.r.below(12) {
            0 => {
                self.t(";");
            }
            1 | 2 => {
                self.no_in = true;
                self.expr_for();
                self.no_in = no_in;
                self.t(";");
            }
            k @ 3..=6 => {
                let kw = self.r.choose(&["var", "let", "const"]);
                self.t(kw);
                if k >= 5 {
                    if self.r.one_in(3) {
                        self.pattern();
                    } else {
                        self.bind();
                    }
                    let of = self.r.one_in(2);
                    self.t(if of { "of" } else { "in" });
                    if of {
                        self.with_in();
                    } else {
                        self.expr_in();
                    }
                    self.t(")");
                    self.body();
                    return;
                }
                self.no_in = true;
                let n = self.r.range(1, 3);
                for i in 0..n {
                    if i > 0 {
                        self.t(",");
                    }
                    if self.r.one_in(4) {
                        self.pattern();
                        self.t("=");
                        self.assign();
                    } else {
                        self.bind();
                        if kw == "const" || self.r.one_in(2) {
                            self.t("=");
                            self.assign();
                        }
                    }
                }
                self.no_in = no_in;
                self.t(";");
            }
            7 | 8 => {
                self.t("var");
                self.no_in = true;
                self.bind();
                self.t("=");
                self.assign();
                self.no_in = no_in;
                self.t(";");
            }
            _ => {
                self.no_in = true;
                if self.r.one_in(4) {
                    self.assign_pattern();
                } else {
                    self.target();
                }
                self.no_in = no_in;
                let of = self.r.one_in(2);
                self.t(if of { "of" } else { "in" });
                if of {
                    self.with_in();
                } else {
                    self.expr_in();
                }
                self.t(")");
                self.body();
                return;
            }
        }
        if self.r.one_in(2) {
            self.expr_in();
        }
        self.t(";");
        if self.r.one_in(2) {
            self.expr_in();
        }
        self.t(")");
        self.body();
    }
    fn expr_for(&mut self) {
        let at = self.out.len();
        self.expr();
        if let Some(G::T(s)) = self.out.get(at) {
            if s == "let" {
                self.out.insert(at, G::T("(".into()));
                self.t(")");
            }
        }
    }

    // ---- functions and classes

    /// 0: expression (name optional), 1: declaration, 2: default export (name optional)
    fn function(&mut self, how: usize) {
        let asy = self.r.one_in(4);
        if asy {
            self.t("async");
            self.n("function");
        } else {
            self.t("function");
        }
        let gen = !asy && self.r.one_in(3);
        if gen {
            self.t("*");
        }
        if how == 1 || self.r.one_in(2) {
            self.bind();
        }
        self.function_rest(asy, gen, false, false);
    }
    fn scope<T>(&mut self, f: impl FnOnce(&mut Self) -> T) -> T {
        let save = (
            self.in_gen,
            self.in_async,
            self.in_func,
            self.in_loop,
            self.in_switch,
            self.no_in,
            std::mem::replace(&mut self.labels, vec![]),
            self.in_method,
            self.in_ctor,
        );
        let nd = self.declared.len();
        let r = f(self);
        self.in_gen = save.0;
        self.in_async = save.1;
        self.in_func = save.2;
        self.in_loop = save.3;
        self.in_switch = save.4;
        self.no_in = save.5;
        self.labels = save.6;
        self.in_method = save.7;
        self.in_ctor = save.8;
        self.declared.truncate(nd);
        r
    }
    fn function_rest(&mut self, asy: bool, gen: bool, method: bool, ctor: bool) {
        self.scope(|s| {
            s.in_func = true;
            s.in_loop = false;
            s.in_switch = false;
            s.no_in = false;
            s.in_method = method;
            s.in_ctor = ctor;
            s.in_gen = false;
            s.in_async = false;
            s.t("(");
            s.params();
            s.t(")");
            s.in_gen = gen;
            s.in_async = asy;
            s.depth += 1;
            s.block();
            s.depth -= 1;
        })
    }
    fn params(&mut self) {
        let n = self.r.below(4);
        for i in 0..n {
            if i + 1 == n && self.r.one_in(5) {
                self.t("...");
                if self.r.one_in(3) {
                    self.pattern();
                } else {
                    self.bind();
                }
                return;
            }
            self.element();
            if i + 1 < n || self.r.one_in(6) {
                self.t(",");
            }
        }
    }
    fn class(&mut self, how: usize) {
        self.t("class");
        if how == 1 || self.r.one_in(2) {
            self.bind();
        }
        let mut derived = false;
        if self.r.one_in(3) {
            derived = true;
            self.t("extends");
            let o = self.no_in;
            self.no_in = false;
            self.lhs();
            self.no_in = o;
        }
        self.t("{");
        self.depth += 1;
        let mut ctor = false;
        let n = if self.small() { self.r.below(2) } else { self.r.below(5) };
        for _ in 0..n {
            match self.r.below(6) {
                0 => self.t(";"),
                1 if !ctor => {
                    ctor = true;
                    self.t("constructor");
                    self.function_rest(false, false, true, derived);
                }
                k => {
                    if k == 2 {
                        self.t("static");
                    }
                    self.method();
                }
            }
        }
        self.depth -= 1;
        self.t("}");
    }
    fn method(&mut self) {
        match self.r.below(9) {
            0 => {
                self.t("get");
                self.prop_name();
                self.scope(|s| {
                    s.accessor();
                    s.t("(");
                    s.t(")");
                    s.block();
                });
            }
            1 => {
                self.t("set");
                self.prop_name();
                self.scope(|s| {
                    s.accessor();
                    s.t("(");
                    if s.r.one_in(3) {
                        s.pattern();
                    } else {
                        s.bind();
                    }
                    s.t(")");
                    s.block();
                });
            }
            2 => {
                self.t("async");
                let at = self.out.len();
                self.prop_name();
                if let G::T(s) = self.out[at].clone() {
                    self.out[at] = G::N(s);
                }
                self.function_rest(true, false, true, false);
            }
            3 => {
                self.t("*");
                self.prop_name();
                self.function_rest(false, true, true, false);
            }
            4 => {
                let w = self.r.choose(&["get", "set", "async", "static", "of", "if", "new"]);
                self.t(w);
                self.function_rest(false, false, true, false);
            }
            _ => {
                self.prop_name();
                self.function_rest(false, false, true, false);
            }
        }
    }
    fn accessor(&mut self) {
        self.in_func = true;
        self.in_gen = false;
        self.in_async = false;
        self.in_loop = false;
        self.in_switch = false;
        self.no_in = false;
        self.in_method = true;
        self.in_ctor = false;
    }
    fn prop_name(&mut self) {
        match self.r.below(10) {
            0 => {
                let s = string(self.r, false);
                self.t(&s);
            }
            1 => {
                let odd = self.odd();
                let s = number(self.r, odd);
                self.t(&s);
            }
            2 => {
                self.t("[");
                self.with_in();
                self.t("]");
            }
            3 | 4 => {
                let w = self.r.pick(&WORDS);
                self.t(w);
            }
            _ => {
                let s = name(self.r, self.o.odd_names);
                let s = if s == "constructor" { "ctor".to_string() } else { s };
                self.t(&s);
            }
        }
    }

    // ---- expressions

    pub fn expr(&mut self) {
        self.assign();
        if self.r.one_in(12) {
            self.t(",");
            self.assign();
        }
    }
    fn target(&mut self) {
        match self.r.below(4) {
            0 if !self.small() => {
                self.member_base();
                self.t(".");
                let w = self.word();
                self.t(&w);
            }
            1 if !self.small() => {
                self.member_base();
                self.t("[");
                self.expr_in();
                self.t("]");
            }
            _ => self.ident(),
        }
    }
    fn word(&mut self) -> String {
        if self.r.one_in(3) {
            self.r.pick(&WORDS).to_string()
        } else {
            name(self.r, 30)
        }
    }
    fn member_base(&mut self) {
        match self.r.below(5) {
            0 => self.t("this"),
            1 if self.in_method => {
                self.t("super");
            }
            2 if !self.small() => self.lhs(),
            _ => self.ident(),
        }
    }
    /// A destructuring target.
    fn assign_pattern(&mut self) {
        self.depth += 1;
        if self.r.one_in(2) {
            self.t("[");
            let n = self.r.below(4);
            for i in 0..n {
                if self.r.one_in(5) {
                    self.t(",");
                }
                if i + 1 == n && self.r.one_in(4) {
                    self.t("...");
                    self.target();
                    break;
                }
                self.target_element();
                if i + 1 < n || self.r.one_in(4) {
                    self.t(",");
                }
            }
            self.t("]");
        } else {
            self.t("{");
            let n = self.r.below(3);
            for i in 0..n {
                if self.r.one_in(3) {
                    self.ident();
                } else {
                    self.prop_name();
                    self.t(":");
                    self.target_element();
                }
                if i + 1 < n || self.r.one_in(4) {
                    self.t(",");
                }
            }
            self.t("}");
        }
        self.depth -= 1;
    }
    fn target_element(&mut self) {
        if self.r.one_in(4) && !self.small() {
            self.assign_pattern();
        } else {
            self.target();
        }
        if self.r.one_in(3) {
            self.t("=");
            self.with_in();
        }
    }

    pub fn assign(&mut self) {
        self.depth += 1;
        if self.small() {
            self.atom();
            self.depth -= 1;
            return;
        }
        if self.in_gen && self.r.one_in(5) {
            self.t("yield");
            match self.r.below(4) {
                0 => {
                    self.n("*");
                    self.assign();
                }
                1 => {
                    // An operand-less yield can only be followed by a closer.
                    self.out.pop();
                    self.t("(");
                    self.t("yield");
                    self.t(")");
                }
                _ => self.no_newline(|s| s.assign()),
            }
            self.depth -= 1;
            return;
        }
        match self.r.below(20) {
            0 | 1 => {
                self.target();
                let op = self.r.choose(&["=", "=", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "**="]);
                self.t(op);
                self.assign();
            }
            2 => {
                let at = self.out.len();
                let brace = self.out.len();
                self.assign_pattern();
                self.t("=");
                self.assign();
                let _ = (at, brace);
            }
            3 | 4 => self.arrow(),
            5 => {
                self.binary();
                self.t("?");
                self.with_in();
                self.t(":");
                self.assign();
            }
            _ => self.binary(),
        }
        self.depth -= 1;
    }
    fn arrow(&mut self) {
        let no_in = self.no_in;
        let asy = self.r.one_in(4);
        let (g, f) = (self.in_gen, self.in_func);
        let nd = self.declared.len();
        let a = self.in_async;
        if asy {
            self.t("async");
        }
        if self.r.one_in(2) {
            self.bind();
            if asy {
                self.newest_stays();
            }
        } else {
            self.t("(");
            if asy {
                self.newest_stays();
            }
            self.no_in = false;
            self.in_gen = false;
            self.in_async = false;
            let n = self.r.below(4);
            for i in 0..n {
                if i + 1 == n && self.r.one_in(5) {
                    self.t("...");
                    if self.r.one_in(3) {
                        self.pattern();
                    } else {
                        self.bind();
                    }
                    break;
                }
                if self.r.one_in(5) && !self.small() {
                    self.arrow_pattern();
                } else {
                    self.bind();
                }
                if self.r.one_in(4) {
                    self.t("=");
                    self.with_in();
                }
                if i + 1 < n {
                    self.t(",");
                }
            }
            self.t(")");
            self.in_gen = g;
            self.no_in = no_in;
        }
        self.n("=>");
        if self.r.one_in(2) {
            self.scope(|s| {
                s.in_func = true;
                s.in_gen = false;
                s.in_async = asy;
                s.in_loop = false;
                s.in_switch = false;
                s.no_in = false;
                s.block();
            });
        } else {
            self.in_gen = false;
            self.in_async = asy;
            let at = self.out.len();
            self.assign();
            if let Some(G::T(s)) = self.out.get(at) {
                if s == "{" {
                    self.out.insert(at, G::T("(".into()));
                    self.t(")");
                }
            }
        }
        self.in_async = a;
        self.in_gen = g;
        self.in_func = f;
        self.declared.truncate(nd);
    }
    /// A binding pattern that is an expression too.
    fn arrow_pattern(&mut self) {
        self.t("[");
        let n = self.r.below(3);
        for _ in 0..n {
            self.bind();
            if self.r.one_in(3) {
                self.t("=");
                self.with_in();
            }
            self.t(",");
        }
        if self.r.one_in(3) {
            self.t("{");
            self.bind();
            self.t(",");
            self.prop_name();
            self.t(":");
            self.bind();
            self.t("}");
        }
        self.t("]");
    }
    fn binary(&mut self) {
        self.unary(true);
        while self.r.one_in(3) && !self.small() {
            let slash = self.r.pct(self.o.slashes);
            let op = if slash {
                "/"
            } else {
                self.r.choose(&[
                    "||", "&&", "|", "^", "&", "==", "!=", "===", "!==", "<", ">", "<=", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "**", "in", "instanceof",
                ])
            };
            if op == "in" && self.no_in {
                continue;
            }
            if op == "**" {
                self.t("*");
            } else {
                self.t(op);
            }
            self.unary(true);
        }
        if self.r.one_in(14) {
            self.t("+");
            self.postfix();
            self.t("**");
            self.unary(true);
        }
    }
    fn r_choose(&mut self, xs: &[&'static str]) -> &'static str {
        let i = self.r.below(xs.len());
        xs[i]
    }
    fn unary(&mut self, _any: bool) {
        self.depth += 1;
        match self.r.below(18) {
            0 => {
                let op = self.r.choose(&["+", "-", "~", "!", "typeof", "void"]);
                self.t(op);
                self.unary(true);
            }
            1 => {
                self.t("delete");
                self.lhs();
                self.t(".");
                self.t("x");
            }
            2 => {
                let op = self.r.choose(&["++", "--"]);
                self.t(op);
                self.target();
            }
            3 if self.in_async => {
                self.t("await");
                self.unary(true);
            }
            4 => {
                self.target();
                let op = self.r.choose(&["++", "--"]);
                self.n(op);
            }
            _ => self.postfix(),
        }
        self.depth -= 1;
    }
    fn postfix(&mut self) {
        self.lhs();
    }
    fn args(&mut self) {
        self.t("(");
        let n = if self.small() { 0 } else { self.r.below(4) };
        for i in 0..n {
            if self.r.one_in(6) {
                self.t("...");
            }
            self.with_in();
            if i + 1 < n || self.r.one_in(8) {
                self.t(",");
            }
        }
        self.t(")");
    }
    pub fn lhs(&mut self) {
        self.depth += 1;
        match self.r.below(16) {
            0 if !self.small() => {
                self.t("new");
                if self.in_func && self.r.one_in(4) {
                    self.t(".");
                    self.t("target");
                } else {
                    // a member expression: no calls
                    match self.r.below(5) {
                        0 => {
                            self.t("(");
                            self.expr_in();
                            self.t(")");
                        }
                        1 => {
                            self.t("new");
                            self.ident();
                            self.args();
                        }
                        2 => self.class(0),
                        3 => {
                            self.ident();
                            self.t(".");
                            let w = self.word();
                            self.t(&w);
                        }
                        _ => self.ident(),
                    }
                    if self.r.one_in(2) {
                        self.args();
                    }
                }
            }
            1 if self.in_method => {
                self.t("super");
                if self.in_ctor && self.r.one_in(2) {
                    self.args();
                } else if self.r.one_in(2) {
                    self.t(".");
                    let w = self.word();
                    self.t(&w);
                } else {
                    self.t("[");
                    self.expr_in();
                    self.t("]");
                }
            }
            _ => self.atom(),
        }
        // `1.x` is no number
        let mut k = self.r.below(3);
        while k > 0 && self.r.one_in(2) && !self.small() {
            k -= 1;
            match self.r.below(8) {
                0 | 1 | 2 => {
                    self.t(".");
                    let w = self.word();
                    self.t(&w);
                }
                3 => {
                    self.t("[");
                    self.expr_in();
                    self.t("]");
                }
                4 => self.template(),
                _ => self.args(),
            }
        }
        self.depth -= 1;
    }
    fn template(&mut self) {
        let odd = self.odd();
        let s = template_chars(self.r, odd);
        if self.small() || self.r.one_in(2) {
            self.t(&format!("`{}`", s));
            return;
        }
        self.t(&format!("`{}${{", s));
        loop {
            self.expr_in();
            let odd = self.odd();
            let s = template_chars(self.r, odd);
            if self.r.one_in(2) {
                self.t(&format!("}}{}`", s));
                return;
            }
            self.t(&format!("}}{}${{", s));
        }
    }
    pub fn atom(&mut self) {
        if self.r.pct(self.o.slashes) {
            let odd = self.odd();
            let s = regex(self.r, odd);
            self.t(&s);
            return;
        }
        if self.r.pct(self.o.templates) {
            return self.template();
        }
        if !self.small() && self.r.pct(self.o.functions / 2) {
            return if self.r.one_in(4) { self.class(0) } else { self.function(0) };
        }
        let k = if self.small() { self.r.below(10) } else { self.r.below(22) };
        match k {
            0 => {
                let w = self.r.choose(&["this", "null", "true", "false"]);
                self.t(w);
            }
            1 | 2 => {
                let odd = self.odd();
                let s = number(self.r, odd);
                self.t(&s);
            }
            3 => {
                let odd = self.odd();
                let s = string(self.r, odd);
                self.t(&s);
            }
            4 => {
                let odd = self.odd();
                let s = template_chars(self.r, odd);
                self.t(&format!("`{}`", s));
            }
            5..=11 => self.ident(),
            12 => {
                let odd = self.odd();
                let s = regex(self.r, odd);
                self.t(&s);
            }
            13 | 14 => {
                self.t("[");
                let n = self.r.below(4);
                for i in 0..n {
                    if self.r.one_in(6) {
                        self.t(",");
                    }
                    if self.r.one_in(8) {
                        self.t("...");
                    }
                    self.with_in();
                    if i + 1 < n || self.r.one_in(5) {
                        self.t(",");
                    }
                }
                self.t("]");
            }
            15 | 16 => self.object(),
            17 => self.function(0),
            18 => self.class(0),
            19 => self.template(),
            _ => {
                self.t("(");
                self.expr_in();
                self.t(")");
            }
        }
    }
    fn object(&mut self) {
        self.t("{");
        let n = self.r.below(4);
        for i in 0..n {
            match self.r.below(8) {
                0 | 1 => self.ident(),
                2 => {
                    self.t("...");
                    self.with_in();
                }
                3 | 4 => self.method(),
                _ => {
                    self.prop_name();
                    self.t(":");
                    self.with_in();
                }
            }
            if i + 1 < n || self.r.one_in(5) {
                self.t(",");
            }
        }
        self.t("}");
    }
}

/// A random program.
pub fn program(r: &mut Rng, o: Opts, size: isize) -> Vec<G> {
    let mut g = Gen::new(r, o, size);
    g.module();
    g.out
}

// ---- rendering

#[derive(Clone, Copy, Debug)]
pub struct Style {
    /// percent of gaps that get trivia although none is needed
    pub gaps: usize,
    /// percent of gaps that get a line terminator
    pub lines: usize,
    /// percent of trivia that is elaborate
    pub odd: usize,
    /// percent of semicolons left to automatic insertion
    pub asi: usize,
    /// percent of those left out without looking at what follows
    pub rash: usize,
}
impl Style {
    pub fn plain() -> Style {
        Style { gaps: 50, lines: 8, odd: 10, asi: 30, rash: 0 }
    }
    pub fn random(r: &mut Rng) -> Style {
        Style {
            gaps: r.choose(&[0, 20, 50, 100]),
            lines: r.choose(&[0, 5, 20, 60]),
            odd: r.choose(&[0, 10, 50, 100]),
            asi: r.choose(&[0, 30, 80, 100]),
            rash: r.choose(&[0, 0, 0, 10]),
        }
    }
}

fn many_of(r: &mut Rng) -> usize {
    match r.below(8) {
        0 | 1 => r.choose(&[256, 512, 1024, 4096, 8192]),
        2 | 3 => r.choose(&[255, 256, 257, 511, 512, 513, 127, 128, 129, 1023, 1025]),
        4 if longest() > 0 && r.one_in(20) => r.choose(&[65535, 65536, 65537, 131072]),
        5 => r.range(1000, 5000),
        _ => r.range(100, 1000),
    }
}
/// A gap made of very many of the same, and perhaps something else at its end; with a line break or without.
pub fn many(r: &mut Rng, broken: bool) -> String {
    let n = if let Some(n) = novel::num(r, 2, 10_000) { n } else { many_of(r) };
    let n = if longest() > 0 { n } else { n % 300 };
    let spaces: [&str; 6] = [" ", "/**/", "/*a*/", "\t", "\u{A0}", "/*é*/"];
    let lines: [&str; 8] = ["\n", "\r\n", "\u{2028}", "/*\n*/", "//\n", "\r", "/*a\u{2029}b*/", "//c\r\n"];
    if !broken {
        return format!("{}{}", r.pick(&spaces).repeat(n), r.pick(&spaces));
    }
    match r.below(4) {
        0 => format!("{}{}", r.pick(&spaces).repeat(n), r.pick(&lines)),
        1 => format!("{}{}", r.pick(&lines), r.pick(&spaces).repeat(n)),
        2 => r.pick(&lines).repeat(n),
        _ => format!("{}{}{}", r.pick(&lines).repeat(n), r.pick(&lines), r.pick(&spaces)),
    }
}

pub fn space(r: &mut Rng, odd: usize) -> String {
    if let Some(w) = novel::word(r, 8).filter(|w| !w.contains(['\n', '\r', '\u{2028}', '\u{2029}']) && !w.contains("*/") && !w.starts_with('/') && !w.ends_with('*')) {
        return format!("/*{}{}{}*/", r.pick(&["", " ", "* ", "@", "# "]), w, r.pick(&["", " ", " a"]));
    }
    if !r.pct(odd) {
        return " ".into();
    }
    if let Some(n) = lengthy(r, 250) {
        return match r.below(3) {
            0 => long(r, &[" ", "\t", "\u{B}", "\u{C}", "\u{A0}", "\u{FEFF}", "  "], n),
            1 => long(r, &["/**/", " ", "/*a*/"], n),
            _ => format!("/*{}*/", long(r, &["a", " ", "é", "日", "* ", "**", "\u{1F600}", "'", "`", "${", "//", "/ "], n).replace("*/", "* /")).replace("**/", "** */"),
        };
    }
    let mut s = String::new();
    for _ in 0..r.range(1, 3) {
        s.push_str(r.pick(&[
            " ", "\t", "\u{B}", "\u{C}", "\u{A0}", "\u{FEFF}", "/**/", "/* a */", "/*é日*/", "/***/", "/*/*/", "/* ** / */", "/*\u{1F600}\"'`${*/", "/*//*/", "/*<!--*/", "  ",
        ]));
    }
    s
}
pub fn line(r: &mut Rng, odd: usize) -> String {
    if let Some(w) = novel::word(r, 8).filter(|w| !w.contains(['\n', '\r', '\u{2028}', '\u{2029}'])) {
        return format!("//{}{}{}\n", r.pick(&["", " ", "@", "# ", "/"]), w, r.pick(&["", " ", " a"]));
    }
    if !r.pct(odd) {
        return "\n".into();
    }
    if let Some(n) = lengthy(r, 250) {
        return match r.below(3) {
            0 => long(r, &["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\n\n"], n),
            1 => {
                let t = long(r, &["a", " ", "é", "日", "*", "/", "'", "\u{1F600}", "*/"], n);
                format!("//{}{}", t, r.pick(&["\n", "\r", "\r\n", "\u{2028}"]))
            }
            _ => {
                let t = long(r, &["\n", " ", "\r\n", "é", "* ", "\u{2029}", "// "], n);
                format!("/*\n{}*/", t)
            }
        };
    }
    let mut s = String::new();
    if r.one_in(2) {
        s.push_str(&space(r, 50));
    }
    s.push_str(r.pick(&[
        "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "//\n", "// x */ é\r\n", "//a\u{2028}", "//\"'`${\r", "/*\n*/", "/* \r\n */", "/*\u{2029}*/", "/*\u{2028}é*/", "/*x\ry*/", "///*\n",
        "\n\n", "\r\r", "//<!--\u{2029}", "/*a*//*\n*//*b*/", "\n\r", "/**\n**/",
    ]));
    if r.one_in(2) {
        s.push_str(&space(r, 50));
    }
    s
}

/// Would the two tokens run together or into something else when written without a gap?
pub fn needs_gap(a: &str, b: &str) -> bool {
    let x = match a.chars().last() {
        Some(c) => c,
        None => return false,
    };
    let y = match b.chars().next() {
        Some(c) => c,
        None => return false,
    };
    let word = |c: char| reflex::id_part(c);
    if word(x) && (word(y) || y == '.' && a.as_bytes()[0].is_ascii_digit()) {
        return true;
    }
    if x == '.' && (y == '.' || word(y) && a.len() > 1 || y.is_ascii_digit()) {
        return true;
    }
    // regex followed by a word: flags
    if a.len() > 1 && a.starts_with('/') && word(y) {
        return true;
    }
    let single = |c: char| "(){}[];,~?:`'\"".contains(c);
    if single(x) || single(y) || word(x) || word(y) {
        return false;
    }
    // two operators
    true
}

fn continues(s: &str) -> bool {
    let c = s.chars().next().unwrap_or(' ');
    if s == "++" || s == "--" {
        return false;
    }
    "([/+-*`,.%<>=&|^?:~!;)]".contains(c) && !(c == '~' || c == '!' && s == "!") || s == "in" || s == "instanceof" || s == "..." || s.starts_with('}') && s.len() > 1
}

pub fn render(r: &mut Rng, toks: &[G], st: Style) -> String {
    let mut s = String::new();
    if r.pct(st.gaps) {
        s.push_str(&space(r, st.odd));
    }
    let mut prev = String::new();
    let mut i = 0;
    let mut force_line = false;
    while i < toks.len() {
        let (text, no_line) = match &toks[i] {
            G::T(t) => (t.as_str(), false),
            G::N(t) => (t.as_str(), true),
            G::Semi => {
                let next = toks[i + 1..].iter().find(|t| **t != G::Semi);
                let next = match next {
                    Some(G::T(t)) | Some(G::N(t)) => t.as_str(),
                    _ => "",
                };
                if r.pct(st.asi) {
                    if next == "" || next == "}" {
                        i += 1;
                        continue;
                    }
                    if !continues(next) {
                        force_line = true;
                        i += 1;
                        continue;
                    }
                    if r.pct(st.rash) {
                        force_line = r.one_in(2);
                        i += 1;
                        continue;
                    }
                }
                (";", false)
            }
        };
        if !prev.is_empty() {
            let gap = if force_line {
                line(r, st.odd)
            } else if !no_line && r.pct(st.lines) {
                line(r, st.odd)
            } else if needs_gap(&prev, text) || r.pct(st.gaps) {
                space(r, st.odd)
            } else {
                String::new()
            };
            if gap.starts_with('/') && prev.ends_with('/') {
                s.push(' ');
            }
            s.push_str(&gap);
        }
        force_line = false;
        s.push_str(text);
        prev = text.to_string();
        i += 1;
    }
    if r.pct(st.gaps) {
        s.push(' ');
        s.push_str(&if r.one_in(2) { line(r, st.odd) } else { space(r, st.odd) });
    }
    if r.one_in(40) {
        s.push_str(" // end");
    }
    s
}

// ---- mutators

const POOL: [&str; 96] = [
    "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "...", "<", "<=", "<<", "<<=", ">", ">=", ">>", ">>=", ">>>", ">>>=", "!", "!=", "!==", "=", "=>", "==", "===",
    "+", "+=", "++", "-", "-=", "--", "%", "%=", "*", "*=", "**", "**=", "/", "/=", "&", "&&", "&=", "|", "||", "|=", "^", "^=", "a", "b", "1", "'s'", "`t`", "/r/g", "in", "of",
    "let", "const", "var", "function", "class", "async", "await", "yield", "static", "get", "set", "new", "this", "super", "extends", "return", "throw", "if", "else", "for",
    "while", "do", "try", "catch", "finally", "switch", "case", "default", "break", "continue", "import", "export", "from", "as", "typeof", "delete",
];

pub fn pool(r: &mut Rng) -> &'static str {
    if !novel::words().is_empty() && r.one_in(10) {
        return &novel::words()[r.below(novel::words().len())];
    }
    POOL[r.below(POOL.len())]
}

const FRAGMENTS: [&str; 66] = [
    "= a", "= [ a ]", "= { }", ", a", ", ,", ", ...", ": a", ": { a }", "a ,", "a :", "... a", "... [ a ]", "( a )", "( )", "( a , b )", "{ }", "{ a }", "[ a ]", "[ ]", "[ ... a ]", "extends a", "as a", "as default",
    "from 's'", "=> a", "=> { }", "( ) => a", "a =>", "async a =>", "async (", "in a", "of a", "else ;", "else { }", "finally { }", "catch ( e ) { }", "catch { }", "while ( a )", "case a :", "default :", "function a ( ) { }",
    "function * a ( ) { }", "async function a ( ) { }", "class a { }", "static a", "get a", "set a", "async a", "* a", "get a ( ) { }", "set a ( b ) { }", "* a ( ) { }", "? a : b", "? a", ". a", "a .", "new", "new . target", "++ a",
    "a ++", "! a", "yield * a", "yield a", "await a", "var a", "let a = b",
];

/// The places of a bracket and its partner.
fn group(r: &mut Rng, toks: &[G]) -> Option<(usize, usize)> {
    let text = |g: &G| if let G::T(s) = g { s.clone() } else { String::new() };
    let opens: Vec<usize> = (0..toks.len()).filter(|&i| matches!(&text(&toks[i])[..], "(" | "[" | "{")).collect();
    if opens.is_empty() {
        return None;
    }
    let a = opens[r.below(opens.len())];
    let mut depth = 0;
    for b in a..toks.len() {
        match &text(&toks[b])[..] {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => {
                depth -= 1;
                if depth == 0 {
                    return Some((a, b));
                }
            }
            _ => {}
        }
    }
    None
}

/// One random change to a token list.
pub fn mutate(r: &mut Rng, toks: &mut Vec<G>) {
    if toks.is_empty() {
        toks.push(G::T(pool(r).into()));
        return;
    }
    let i = r.below(toks.len());
    match r.below(18) {
        14 | 15 => {
            // a piece of grammar where it may not belong
            let f = FRAGMENTS[r.below(FRAGMENTS.len())];
            for (k, t) in f.split(' ').enumerate() {
                toks.insert(i + k, G::T(t.into()));
            }
        }
        16 => {
            // a bracketed group becomes something else, or goes
            if let Some((a, b)) = group(r, toks) {
                let f = FRAGMENTS[r.below(FRAGMENTS.len())];
                toks.drain(a..=b);
                if r.one_in(2) {
                    for (k, t) in f.split(' ').enumerate() {
                        toks.insert(a + k, G::T(t.into()));
                    }
                }
            }
        }
        17 => {
            // something directly before or after a bracketed group
            if let Some((a, b)) = group(r, toks) {
                let f = FRAGMENTS[r.below(FRAGMENTS.len())];
                let at = r.choose(&[a, a + 1, b, b + 1, b + 1]);
                for (k, t) in f.split(' ').enumerate() {
                    toks.insert(at + k, G::T(t.into()));
                }
            }
        }
        0 | 1 | 2 => {
            toks.remove(i);
        }
        3 | 4 | 5 => toks.insert(i, G::T(pool(r).into())),
        6 | 7 => toks[i] = G::T(pool(r).into()),
        8 => {
            let j = (i + 1).min(toks.len() - 1);
            toks.swap(i, j);
        }
        9 => {
            let t = toks[i].clone();
            toks.insert(i, t);
        }
        10 => toks.truncate(i),
        11 => {
            // move a range
            let n = r.range(1, 5).min(toks.len() - i);
            let piece: Vec<G> = toks.drain(i..i + n).collect();
            let j = r.below(toks.len() + 1);
            for (k, t) in piece.into_iter().enumerate() {
                toks.insert(j + k, t);
            }
        }
        12 => {
            // drop a range
            let n = r.range(1, 5).min(toks.len() - i);
            toks.drain(i..i + n);
        }
        _ => {
            // copy a range
            let n = r.range(1, 8).min(toks.len() - i);
            let piece: Vec<G> = toks[i..i + n].to_vec();
            let j = r.below(toks.len() + 1);
            for (k, t) in piece.into_iter().enumerate() {
                toks.insert(j + k, t);
            }
        }
    }
}

/// One random change to a text, by characters.
pub fn mutate_text(r: &mut Rng, s: &str) -> String {
    let cs: Vec<char> = s.chars().collect();
    let i = r.below(cs.len() + 1);
    let mut out: Vec<char> = cs.clone();
    match r.below(6) {
        0 | 1 if i < cs.len() => {
            out.remove(i);
        }
        2 => out.truncate(i),
        3 if i < cs.len() => out[i] = soup_char(r),
        4 if i < cs.len() => {
            let n = r.range(1, 6).min(cs.len() - i);
            out.drain(i..i + n);
        }
        _ => out.insert(i, soup_char(r)),
    }
    out.into_iter().collect()
}

pub fn soup_char(r: &mut Rng) -> char {
    match r.below(10) {
        0..=5 => r.choose(&[
            '{', '}', '(', ')', '[', ']', '/', '*', '\\', '\'', '"', '`', '$', '.', '0', '1', '9', 'e', 'x', 'b', 'o', 'a', 'u', 'n', '+', '-', '=', '<', '>', '!', '&', '|', '^', '%', ',', ';',
            ':', '?', '~', '_', ' ', '\n', '\r', '\t',
        ]),
        6 => (r.below(128) as u8) as char,
        7 => r.choose(&['\u{2028}', '\u{2029}', '\u{A0}', '\u{FEFF}', '\u{85}', '\u{B}', '\u{C}', '\u{200B}', '\u{180E}', '\u{3000}', '\u{1680}']),
        8 => r.choose(&['é', '日', '\u{1F600}', '\u{10FFFF}', '\u{E2}', '\u{C2}', '\u{202A}', '\u{2027}', '\u{FEFE}', '\u{A1}', '\u{FFFD}', '\u{7FF}', '\u{800}', '\u{10000}']),
        _ => char::from_u32(r.below(0x11_0000) as u32).unwrap_or('x'),
    }
}

/// Hostile text.
pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    let mut s = String::new();
    while s.len() < n {
        match r.below(12) {
            0 => s.push_str(&string(r, true)),
            1 => s.push_str(&number(r, true)),
            2 => s.push_str(&regex(r, true)),
            3 => {
                s.push('`');
                s.push_str(&template_chars(r, true));
                s.push_str(r.pick(&["`", "${", "$", ""]));
            }
            4 => s.push_str(&line(r, 100)),
            5 => s.push_str(&space(r, 100)),
            6 => s.push_str(&name(r, 50)),
            7 => s.push_str(pool(r)),
            8 => s.push_str(r.pick(&["0x", "0b2", "0o8", "1e", "1e+", "0.", "..", "08", "01", "\\u0041", "//", "/*", "*/", "<!--", "-->", "'\\", "\"\\u{", "'\\x4", "`\\", "/[", "/\\", "5.e", "0B", ".e1", "1_0", "1n", "#!", "@"])),
            _ => {
                for _ in 0..r.range(1, 4) {
                    s.push(soup_char(r));
                }
            }
        }
    }
    s
}

/// Lists and chains: what comes before, what is repeated (`#` is its number), what stands between, what comes after, and whether it nests.
const LISTS: [(&str, &str, &str, &str, bool); 76] = [
    ("f(", "a", ",", ")", false),
    ("f(", "...a", ",", ")", false),
    ("new f(", "a", ",", ")", false),
    ("[", "a", ",", "]", false),
    ("[", "", ",", "]", false),
    ("[", "a", ",,", ",]", false),
    ("[", "...a", ",", "]", false),
    ("({", "a:1", ",", "})", false),
    ("({", "a", ",", ",})", false),
    ("({", "m#(){}", ",", "})", false),
    ("({", "get a(){}", ",", "})", false),
    ("({", "['a']:b", ",", "})", false),
    ("function f(", "a#", ",", "){}", false),
    ("function f(", "a#=1", ",", ",...b){}", false),
    ("function*f(", "[a#]", ",", "){}", false),
    ("x=function(", "{a#}", ",", "){}", false),
    ("(", "a#", ",", ")=>1", false),
    ("(", "a#=1", ",", ")=>{}", false),
    ("async(", "a#", ",", ")=>1", false),
    ("async(", "a", ",", ")", false),
    ("(", "a", ",", ")", false),
    ("", "a", ",", "", false),
    ("var ", "a#=1", ",", "", false),
    ("var ", "a#", ",\n", "", false),
    ("let ", "a#", ",", "", false),
    ("const ", "a#=1", ",", "", false),
    ("var{", "a#", ",", "}=b", false),
    ("var{", "b:a#=1", ",", "}=b", false),
    ("let[", "a#", ",", "]=b", false),
    ("let[", "", ",", "a]=b", false),
    ("[", "a#", ",", "]=b", false),
    ("({", "b:a", ",", "}=b)", false),
    ("import{", "a#", ",", "}from'm'", false),
    ("import{", "b as a#", ",", ",}from'm'", false),
    ("export{", "a as a#", ",", "}from'm'", false),
    ("var a;export{", "a as a#", ",", "}", false),
    ("export var ", "a#", ",", "", false),
    ("switch(a){", "case #:b;", "", "}", false),
    ("switch(a){", "case 1:", "", "default:}", false),
    ("switch(a){default:", "case/a/:", "", "}", false),
    ("class A{", "m#(){}", "", "}", false),
    ("class A{", "static get m#(){}", ";", "}", false),
    ("class A{", ";", "", "}", false),
    ("(class{", "['a'](){}", "\n", "})", false),
    ("`", "a${b}", "", "`", false),
    ("`", "a${{}}\n", "", "`", false),
    ("a", ".b", "", "", false),
    ("a", "[b]", "", "", false),
    ("a", "(b)", "", "", false),
    ("a", "`b${c}`", "", "", false),
    ("a", "\n.b", "", "/c/d", false),
    ("", "a", "+", "", false),
    ("", "a", "/", "", false),
    ("", "a", " in ", "", false),
    ("", "a;", "", "", false),
    ("", "a\n", "", "", false),
    ("", "a++\n", "", "", false),
    ("", ";", "", "", false),
    ("", "{}", "", "", false),
    ("", "{}/a/\n", "", "", false),
    ("", "function f#(){}", "", "", false),
    ("", "import'a'\n", "", "", false),
    ("", "/*a*/", "", "a", false),
    ("a", "/*a*/", "", ".b", false),
    ("", "//a\n", "", "a", false),
    ("a", "\n", "", "b", false),
    ("{", "'use strict';", "", "}", false),
    ("for(var ", "a#=1", ",", ";;);", false),
    ("for(", "a", ",", ";;);", false),
    ("try{", "a\n", "", "}catch(e){}", false),
    ("", "a?b:", "", "c", true),
    ("", "a=", "", "b", true),
    ("", "if(a)b;else ", "", ";", true),
    ("", "a#:", "", ";", true),
    ("", "x=>", "", "x", true),
    ("", "new a.b(c)\n", "", "", false),
];
/// Every list, `n` long.
pub fn all_lists(n: usize) -> Vec<String> {
    LISTS.iter().map(|l| write_list(l, n)).collect()
}
fn write_list(l: &(&str, &str, &str, &str, bool), n: usize) -> String {
    let (pre, unit, sep, suf, _) = *l;
    let mut s = String::from(pre);
    for k in 0..n.max(1) {
        if k > 0 {
            s.push_str(sep);
        }
        if unit.contains('#') {
            s.push_str(&unit.replace('#', &k.to_string()));
        } else {
            s.push_str(unit);
        }
    }
    s.push_str(suf);
    s
}
/// Lists and chains longer than a counter of 16 bits counts, or than new numbers of the source; whole, and wrong at their end.
pub fn longest_lists() -> u64 {
    (LISTS.iter().filter(|l| flat(l)).count() * ENDS.len() * (1 + longer_still().len())) as u64
}
/// Whether a parser that keeps what it reads reads it in time that grows as its length: without names that differ.
fn flat(l: &(&str, &str, &str, &str, bool)) -> bool {
    !l.4 && !l.1.contains('#')
}
const ENDS: [&str; 3] = ["", ")", "\u{8}"];
fn longer_still() -> Vec<usize> {
    let mut all: Vec<usize> = novel::numbers().iter().map(|n| *n as usize).filter(|n| (20..=400_000).contains(n)).collect();
    all.sort();
    all.dedup();
    // one of each number and those beside it, and not too many
    let mut some: Vec<usize> = vec![];
    for n in all.into_iter().rev() {
        if some.last().map_or(true, |l| n + 8 < *l) {
            some.push(n);
        }
    }
    some.truncate(4);
    some
}
pub fn longest_nth(i: u64) -> String {
    let i = i as usize;
    let flats: Vec<_> = LISTS.iter().filter(|l| flat(l)).collect();
    let (k, rest) = (i % flats.len(), i / flats.len());
    let (e, rest) = (rest % ENDS.len(), rest / ENDS.len());
    let l = flats[k];
    let n = if rest == 0 { 131_075 } else { longer_still()[rest - 1] };
    let mut t = write_list(l, n.min(2_500_000 / (l.1.len() + l.2.len())));
    match ENDS[e] {
        "\u{8}" => {
            t.pop();
        }
        x => t.push_str(x),
    }
    t
}
/// A long list or chain.
pub fn list(r: &mut Rng) -> String {
    let l = &LISTS[r.below(LISTS.len())];
    let (_, unit, sep, _, nests) = *l;
    let mut n = if r.one_in(20) { r.range(1000, 70_000) } else { long_len(r).min(5000) };
    if nests {
        n = n.min(250);
    }
    if let Some(k) = novel::num(r, 2, if nests { 250 } else { 70_000 }) {
        n = k;
    }
    // within these, most of the time
    n = n.min(200_000 / (unit.len() + sep.len() + 1));
    write_list(l, n)
}
/// The same with something changed near its end, its start or a power of two.
pub fn bad_list(r: &mut Rng) -> String {
    let s = list(r);
    let cs: Vec<char> = s.chars().collect();
    let at = match r.below(4) {
        0 => r.below(cs.len()),
        1 => r.below(cs.len().min(12)),
        2 => (1usize << r.range(3, 16)).min(cs.len() - 1),
        _ => cs.len() - 1 - r.below(cs.len().min(12)),
    };
    let mut t: String = cs[..at].iter().collect();
    let skip = r.below(3);
    let ins = if skip == 0 || r.one_in(2) { pool(r) } else { "" };
    t.push_str(ins);
    t.extend(cs[(at + skip).min(cs.len())..].iter());
    t
}
