//! Reference lexer, written from the lexical grammar of ECMAScript 2018 (module goal) and independent of the code under test.
//!
//! For a text, a place in it and the hints it answers: this token, with this extent and payload; refused; or not judged.

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tf {
    Whole,
    Head,
    Middle,
    Tail,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Num {
    /// the value is exact (integers below 2^53)
    Exact(f64),
    /// the value to a small relative error
    Near(f64),
    /// far beyond what a double holds, so infinite or nearly
    Huge,
    /// far below what a double holds, so zero or nearly
    Tiny,
    /// the value lies outside what a double holds, or a part of it does
    Extent,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Punct(&'static str),
    Ident,
    Num(Num),
    Str,
    Template(Tf),
    /// offset of the closing slash
    Regex(usize),
    LineComment,
    BlockComment,
    Line,
    Eof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    /// The standard refuses the token as it stands; the tokenizer may leave that to the parser.
    pub may_refuse: bool,
    /// The literal has an escape that only some positions or editions allow.
    pub odd_escape: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Lexed {
    Tok(Tok),
    Refuse(&'static str),
    Unjudged(&'static str),
}

pub const WS: [char; 6] = ['\u{9}', '\u{B}', '\u{C}', ' ', '\u{A0}', '\u{FEFF}'];
pub const LTS: [char; 4] = ['\n', '\r', '\u{2028}', '\u{2029}'];

pub fn is_ws(c: char) -> bool {
    WS.contains(&c)
}
pub fn is_lt(c: char) -> bool {
    LTS.contains(&c)
}
fn is_zs(c: char) -> bool {
    matches!(c, '\u{1680}' | '\u{2000}'..='\u{200A}' | '\u{202F}' | '\u{205F}' | '\u{3000}' | '\u{180E}')
}
pub fn id_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '$' || c == '_'
}
pub fn id_part(c: char) -> bool {
    id_start(c) || c.is_ascii_digit()
}
/// Characters beyond ASCII that certainly start no token.
pub const JUNK: [char; 14] = [
    '\u{85}', '\u{AB}', '\u{2014}', '\u{2018}', '\u{201C}', '\u{2026}', '\u{20AC}', '\u{2192}', '\u{200B}', '\u{FFFD}', '\u{1F600}', '\u{D7}',
    '\u{E000}', '\u{2060}',
];

/// Longest first for each first character.
pub const PUNCTS: [&str; 54] = [
    ">>>=", "...", "<<=", ">>=", ">>>", "===", "!==", "**=", "<=", "<<", ">=", ">>", "=>", "==", "!=", "++", "+=", "--", "-=", "%=", "*=", "**",
    "&&", "&=", "||", "|=", "^=", "{", "}", "(", ")", "[", "]", ";", ",", "~", "?", ":", ".", "<", ">", "=", "!", "+", "-", "%", "*", "&", "|",
    "^", "/=", "/", "\u{0}", "\u{0}",
];

pub fn skip_ws(text: &str, mut off: usize) -> usize {
    for c in text[off..].chars() {
        if is_ws(c) {
            off += c.len_utf8();
        } else {
            break;
        }
    }
    off
}

fn tok(kind: Kind, start: usize, end: usize) -> Lexed {
    Lexed::Tok(Tok { kind, start, end, may_refuse: false, odd_escape: false })
}

/// The token at `off`, white space already skipped.
pub fn lex(text: &str, off: usize, expr: bool, tmpl: bool) -> Lexed {
    let rest = &text[off..];
    let mut it = rest.chars();
    let c = match it.next() {
        None => return tok(Kind::Eof, off, off),
        Some(c) => c,
    };
    let c2 = it.next();
    match c {
        '\r' if c2 == Some('\n') => tok(Kind::Line, off, off + 2),
        _ if is_lt(c) => tok(Kind::Line, off, off + c.len_utf8()),
        '/' if c2 == Some('/') => {
            let mut end = text.len();
            for (i, d) in rest.char_indices() {
                if is_lt(d) {
                    end = off + i;
                    break;
                }
            }
            tok(Kind::LineComment, off, end)
        }
        '/' if c2 == Some('*') => match rest[2..].find("*/") {
            Some(i) => tok(Kind::BlockComment, off, off + 2 + i + 2),
            None => Lexed::Refuse("unterminated comment"),
        },
        '/' if expr => regex(text, off),
        '}' if tmpl => template(text, off, true),
        '`' => template(text, off, false),
        '"' | '\'' => string(text, off, c),
        '0'..='9' => number(text, off),
        '.' if matches!(c2, Some('0'..='9')) => number(text, off),
        _ if id_start(c) => {
            let mut end = off;
            for d in rest.chars() {
                if id_part(d) {
                    end += 1;
                } else {
                    if d == '\\' || (!d.is_ascii() && !is_ws(d) && !is_lt(d) && !JUNK.contains(&d)) {
                        return Lexed::Unjudged("name with non-ASCII or escaped characters");
                    }
                    break;
                }
            }
            tok(Kind::Ident, off, end)
        }
        _ => {
            for p in PUNCTS.iter() {
                if *p != "\u{0}" && rest.starts_with(p) {
                    return tok(Kind::Punct(p), off, off + p.len());
                }
            }
            if c == '\\' {
                return Lexed::Unjudged("escaped name");
            }
            if c.is_ascii() || JUNK.contains(&c) {
                Lexed::Refuse("character that starts no token")
            } else if is_zs(c) {
                Lexed::Unjudged("Unicode space")
            } else {
                Lexed::Unjudged("non-ASCII character")
            }
        }
    }
}

fn regex(text: &str, off: usize) -> Lexed {
    let mut class = false;
    let mut esc = false;
    let mut close = None;
    for (i, c) in text[off..].char_indices().skip(1) {
        if is_lt(c) {
            return Lexed::Refuse("regular expression across lines");
        }
        if esc {
            esc = false;
        } else if c == '\\' {
            esc = true;
        } else if class {
            if c == ']' {
                class = false;
            }
        } else if c == '[' {
            class = true;
        } else if c == '/' {
            close = Some(off + i);
            break;
        }
    }
    let close = match close {
        None => return Lexed::Refuse("unterminated regular expression"),
        Some(c) => c,
    };
    let mut end = close + 1;
    for c in text[end..].chars() {
        if c.is_ascii_lowercase() {
            end += 1;
        } else {
            if id_part(c) || c == '\\' || (!c.is_ascii() && !is_ws(c) && !is_lt(c) && !JUNK.contains(&c)) {
                return Lexed::Unjudged("regular expression flags beyond a-z");
            }
            break;
        }
    }
    tok(Kind::Regex(close), off, end)
}

fn template(text: &str, off: usize, cont: bool) -> Lexed {
    let b = text.as_bytes();
    let mut i = off + 1;
    let mut odd = false;
    while i < b.len() {
        match b[i] {
            b'\\' => {
                if i + 1 >= b.len() {
                    break;
                }
                match escape(text, i) {
                    Esc::Fine(_) => {}
                    _ => odd = true,
                }
                i += 1 + text[i + 1..].chars().next().unwrap().len_utf8();
            }
            b'`' => {
                return Lexed::Tok(Tok {
                    kind: Kind::Template(if cont { Tf::Tail } else { Tf::Whole }),
                    start: off,
                    end: i + 1,
                    may_refuse: false,
                    odd_escape: odd,
                })
            }
            b'$' if i + 1 < b.len() && b[i + 1] == b'{' => {
                return Lexed::Tok(Tok {
                    kind: Kind::Template(if cont { Tf::Middle } else { Tf::Head }),
                    start: off,
                    end: i + 2,
                    may_refuse: false,
                    odd_escape: odd,
                })
            }
            _ => i += 1,
        }
    }
    Lexed::Refuse("unterminated template")
}

enum Esc {
    /// bytes from the backslash on
    Fine(usize),
    Bad,
    Odd(usize),
}

/// The escape whose backslash is at `i`; something follows it.
fn escape(text: &str, i: usize) -> Esc {
    let b = text.as_bytes();
    let c = text[i + 1..].chars().next().unwrap();
    match c {
        '\r' if b.get(i + 2) == Some(&b'\n') => Esc::Fine(3),
        'x' => {
            if b.len() >= i + 4 && b[i + 2].is_ascii_hexdigit() && b[i + 3].is_ascii_hexdigit() {
                Esc::Fine(4)
            } else {
                Esc::Bad
            }
        }
        'u' => {
            if b.get(i + 2) == Some(&b'{') {
                let mut j = i + 3;
                while j < b.len() && b[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j == i + 3 || b.get(j) != Some(&b'}') {
                    return Esc::Bad;
                }
                let digits = text[i + 3..j].trim_start_matches('0');
                if digits.len() > 6 || (!digits.is_empty() && u32::from_str_radix(digits, 16).unwrap() > 0x10FFFF) {
                    return Esc::Odd(j + 1 - i);
                }
                Esc::Fine(j + 1 - i)
            } else if b.len() >= i + 6 && b[i + 2..i + 6].iter().all(|x| x.is_ascii_hexdigit()) {
                Esc::Fine(6)
            } else {
                Esc::Bad
            }
        }
        '0' if matches!(b.get(i + 2), Some(b'0'..=b'9')) => Esc::Odd(2),
        '0' => Esc::Fine(2),
        '1'..='9' => Esc::Odd(2),
        _ => Esc::Fine(1 + c.len_utf8()),
    }
}

fn string(text: &str, off: usize, q: char) -> Lexed {
    let mut i = off + 1;
    while let Some(c) = text[i..].chars().next() {
        if c == q {
            return tok(Kind::Str, off, i + 1);
        }
        match c {
            '\\' => {
                if i + 1 >= text.len() {
                    break;
                }
                match escape(text, i) {
                    Esc::Fine(n) => i += n,
                    Esc::Bad => return Lexed::Refuse("escape without its digits"),
                    Esc::Odd(_) => return Lexed::Unjudged("octal or out-of-range escape"),
                }
            }
            '\n' | '\r' => return Lexed::Refuse("line break in string"),
            '\u{2028}' | '\u{2029}' => return Lexed::Unjudged("U+2028/2029 in string"),
            _ => i += c.len_utf8(),
        }
    }
    Lexed::Refuse("unterminated string")
}

fn digits(b: &[u8], mut i: usize, radix: u32) -> usize {
    while i < b.len() && (b[i] as char).is_digit(radix) {
        i += 1;
    }
    i
}

fn number(text: &str, off: usize) -> Lexed {
    let b = text.as_bytes();
    let mut may_refuse = false;
    let value;
    let end;
    let radix = if b[off] == b'0' {
        match b.get(off + 1) {
            Some(b'x') | Some(b'X') => 16,
            Some(b'o') | Some(b'O') => 8,
            Some(b'b') | Some(b'B') => 2,
            _ => 10,
        }
    } else {
        10
    };
    if radix != 10 {
        let e = digits(b, off + 2, radix);
        if e == off + 2 {
            // A prefix without digits: refused, or at most the zero taken.
            return Lexed::Tok(Tok { kind: Kind::Num(Num::Exact(0.0)), start: off, end: off + 1, may_refuse: true, odd_escape: false });
        }
        let mut v = 0f64;
        let mut exact = 0u128;
        let sig = text[off + 2..e].trim_start_matches('0');
        for c in sig.chars() {
            let d = c.to_digit(radix).unwrap();
            v = v * radix as f64 + d as f64;
            if exact < 1 << 60 {
                exact = exact * radix as u128 + d as u128;
            }
        }
        value = if exact < 1 << 53 {
            Num::Exact(exact as f64)
        } else if v < 1e290 {
            Num::Near(v)
        } else {
            Num::Extent
        };
        end = e;
    } else {
        let int_end = digits(b, off, 10);
        if b[off] == b'0' && int_end > off + 1 {
            // 017 or 09: legacy forms, not allowed in modules.
            return Lexed::Unjudged("legacy octal");
        }
        let mut e = int_end;
        let mut is_int = true;
        if b.get(e) == Some(&b'.') {
            is_int = false;
            e = digits(b, e + 1, 10);
        }
        let mant_end = e;
        let mut exp_digits = "";
        let exp_minus = matches!(b.get(e + 1), Some(b'-'));
        if matches!(b.get(e), Some(b'e') | Some(b'E')) {
            let mut j = e + 1;
            if matches!(b.get(j), Some(b'+') | Some(b'-')) {
                j += 1;
            }
            let k = digits(b, j, 10);
            if k > j {
                is_int = false;
                exp_digits = &text[j..k];
                e = k;
            } else {
                may_refuse = true;
            }
        }
        end = e;
        let exp_sig = exp_digits.trim_start_matches('0');
        let exp: i64 = if exp_sig.is_empty() {
            0
        } else if exp_sig.len() > 4 {
            99999
        } else {
            exp_sig.parse().unwrap()
        };
        let v: f64 = text[off..end].parse().unwrap_or(f64::NAN);
        assert!(!v.is_nan(), "reference cannot read {:?}", &text[off..end]);
        let mant_zero = text[off..mant_end].bytes().all(|c| c == b'0' || c == b'.');
        value = if is_int && v < 9007199254740992.0 {
            Num::Exact(v)
        } else if exp <= 290 && int_end - off <= 290 && mant_end - int_end <= 290 && (mant_zero || (v > 1e-290 && v < 1e290)) {
            Num::Near(v)
        } else if !mant_zero && mant_end - off <= 60 && exp > 400 {
            if exp_minus { Num::Tiny } else { Num::Huge }
        } else {
            Num::Extent
        };
    }
    if let Some(c) = text[end..].chars().next() {
        if id_part(c) || c == '\\' || (!c.is_ascii() && !is_ws(c) && !is_lt(c)) {
            may_refuse = true;
        }
    }
    Lexed::Tok(Tok { kind: Kind::Num(value), start: off, end, may_refuse, odd_escape: false })
}

/// Position as documented: offset, 1-based line, 0-based column in code points.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Pos {
    pub offset: usize,
    pub line: usize,
    pub column: usize,
}

/// Positions of all character boundaries, computed independently in one pass (index = byte offset).
pub struct PosMap {
    v: Vec<(u32, u32)>,
}
impl PosMap {
    pub fn new(text: &str) -> PosMap {
        let mut v = vec![(0, 0); text.len() + 1];
        let mut line = 1;
        let mut col = 0;
        let b = text.as_bytes();
        for (i, c) in text.char_indices() {
            v[i] = (line, col);
            let ends = match c {
                '\r' => b.get(i + 1) != Some(&b'\n'),
                _ => is_lt(c),
            };
            if ends {
                line += 1;
                col = 0;
            } else {
                col += 1;
            }
        }
        v[text.len()] = (line, col);
        PosMap { v }
    }
    pub fn at(&self, offset: usize) -> Pos {
        let (line, column) = self.v[offset];
        Pos { offset, line: line as usize, column: column as usize }
    }
}
