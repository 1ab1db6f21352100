//! C02 to C08: what the tokenizer answers, place by place.

use crate::case::{Case, Check, Obs, Tier};
use crate::gen;
use crate::mon::{self, Drive, Ev, Verdict, Wrong, H};
use crate::reflex::{self, Kind, Lexed, PosMap};
use crate::rng::Rng;
use crate::work;

/// One answer with the place it was asked at.
pub struct Step<'c> {
    pub from: usize,
    pub hint: H,
    pub answer: Result<Ev<'c>, Verdict>,
}

/// Ask for tokens from the start to the end of input, or a refusal.
pub fn drive<'c>(text: &'c str, seed: u64, mut f: impl FnMut(&Step<'c>) -> Result<bool, String>) -> Result<(), String> {
    let mut r = Rng::new(seed);
    let mut d = Drive::new(text);
    let mut from = 0;
    let mut eofs = 0;
    for n in 0.. {
        let hint = work::hint_at(&mut r, text, from.min(text.len()));
        let answer = d.next(hint);
        let s = Step { from, hint, answer };
        let go = f(&s)?;
        let ev = match s.answer {
            Ok(ev) => ev,
            Err(_) => return Ok(()),
        };
        if !go {
            return Ok(());
        }
        if let jsparse::verif_hooks::tokens::Token::EOF(_) = ev.tok {
            eofs += 1;
            if eofs > 2 {
                return Ok(());
            }
        }
        let end = ev.range.end.offset;
        if end > text.len() || !text.is_char_boundary(end) || end < from || n > text.len() + 8 {
            return Ok(()); // what the tiling check is for
        }
        from = end;
    }
    Ok(())
}

/// Every token in place: in order, inside the text, nothing but white space between.
pub fn tiling(text: &str, from: usize, ev: &Ev, last_eof: bool) -> Result<(), String> {
    let (s, e) = (ev.range.start.offset, ev.range.end.offset);
    let eof = mon::kind_name(&ev.tok) == "end of input";
    let what = || mon::describe(&ev.tok);
    if s > text.len() || e > text.len() {
        return Err(format!("{} at {}..{} lies outside the text of {} bytes", what(), s, e, text.len()));
    }
    if !text.is_char_boundary(s) || !text.is_char_boundary(e) {
        return Err(format!("{} at {}..{} splits a character", what(), s, e));
    }
    if s > e {
        return Err(format!("{} at {}..{} ends before it starts", what(), s, e));
    }
    if s < from {
        return Err(format!("{} at {}..{} overlaps what ended at {}", what(), s, e, from));
    }
    let gap = &text[from..s];
    if mon::kind_name(&ev.tok) != "white space" && !gap.chars().all(reflex::is_ws) {
        return Err(format!("{:?} was skipped before {} at {}..{}", mon::clip(gap, 60), what(), s, e));
    }
    if eof {
        if s != e || s != text.len() {
            return Err(format!("end of input reported at {}..{} of {} bytes", s, e, text.len()));
        }
    } else {
        if s == e {
            return Err(format!("{} at {}..{} covers nothing", what(), s, e));
        }
        if last_eof {
            return Err(format!("{} after end of input", what()));
        }
    }
    Ok(())
}

fn positions(map: &PosMap, ev: &Ev) -> Result<(), String> {
    for (what, p) in [("start", ev.range.start), ("end", ev.range.end)] {
        let q = map.at(p.offset);
        if (p.line, p.column) != (q.line, q.column) {
            return Err(format!(
                "{} of {} at byte {}: reported line {} column {}, in the text it is line {} column {}",
                what,
                mon::describe(&ev.tok),
                p.offset,
                p.line,
                p.column,
                q.line,
                q.column
            ));
        }
    }
    Ok(())
}

fn is_eof(ev: &Ev) -> bool {
    mon::kind_name(&ev.tok) == "end of input"
}

fn interesting(o: &mut Obs, n: usize) {
    if n >= 3 {
        o.nontrivial = true;
    }
}

/// Among tokens, and in everything that may span lines.
pub const AMONG: [&str; 9] = ["a§b\n§c", "'§'a", "`§`\na", "/*§*/a\nb", "//§a\nb", "/§/a\nb", "'\\§'a\nb", "`\\§${a\nb", "\r§\n§a"];

// ---- C02

pub struct C02;
impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        "Every Unicode character among tokens and in literals and comments, and random texts (lexeme sequences, programs, damaged programs, hostile characters), a few of them of many thousand lines or many megabytes, read to the end by the real tokenizer under random hints, and again by the real parser through a recording token source; every answer's range is checked against what was read before. Non-trivial: at least three tokens were returned."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 12_000_000 } else { 1_500_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        placements(&AMONG, t)
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        Case::with("every character", vec![placed(&AMONG, i, t).unwrap()], vec![i])
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        if i % 5000 == 77 {
            let (t, n) = work::huge(r);
            return Case::with("huge", t, vec![r.next() >> 16, n]);
        }
        let t = work::lexical(r);
        Case::with("tiles", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, c: &Case) -> bool {
        c.kind != "huge"
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let made;
        let text = if c.kind == "huge" {
            made = work::build_huge(&c.texts, c.nums[1]);
            o.hit("huge texts");
            o.max("bytes in one text", made.len() as u64);
            &made[..]
        } else {
            c.text()
        };
        let mut n = 0;
        let mut last_eof = false;
        let mut ended = false;
        drive(text, c.nums[0], |s| {
            if let Ok(ev) = &s.answer {
                n += 1;
                tiling(text, s.from, ev, last_eof).map_err(|m| format!("under hints {:?}: {}", s.hint, m))?;
                last_eof = is_eof(ev);
                ended |= last_eof;
                if last_eof {
                    // Everything but white space must have been read.
                    if !text[s.from..].chars().all(reflex::is_ws) {
                        return Err(format!("end of input with {:?} unread", mon::clip(&text[s.from..], 60)));
                    }
                }
            }
            Ok(true)
        })?;
        o.add("tokens returned to a direct caller", n as u64);
        o.hit(if ended { "texts read to the end" } else { "texts read up to a refusal" });
        interesting(o, n);
        let run = mon::run(text);
        let mut from = 0;
        let mut last_eof = false;
        for ev in &run.ev {
            tiling(text, from, ev, last_eof).map_err(|m| format!("while parsing: {}", m))?;
            from = ev.range.end.offset;
            last_eof = is_eof(ev);
        }
        o.add("tokens returned to the parser", run.ev.len() as u64);
        o.sample(if c.kind == "huge" { "huge" } else { "text" }, &mon::clip(text, 1000));
        Ok(())
    }
}

// ---- C03

pub struct C03;
impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        "Every Unicode character among tokens and in literals and comments, and random texts with every kind of white space, line terminator, comment and multi-line literal, in ASCII and beyond, a few of them of many thousand lines or many megabytes, read by the real tokenizer under random hints and by the real parser; the start and end of every token are compared with line and column counted in the text itself. Non-trivial: at least three tokens and either two lines or a character beyond ASCII."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 12_000_000 } else { 1_500_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        placements(&AMONG, t)
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        Case::with("every character", vec![placed(&AMONG, i, t).unwrap()], vec![i])
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        if i % 5000 == 77 {
            let (t, n) = work::huge(r);
            return Case::with("huge", t, vec![r.next() >> 16, n]);
        }
        let mut t = work::lexical(r);
        if r.one_in(2) {
            let mut s = String::new();
            for _ in 0..r.range(1, 5) {
                s.push_str(&gen::line(r, 100));
                s.push_str(&gen::space(r, 100));
                s.push_str(&match r.below(4) {
                    0 => gen::string(r, true),
                    1 => format!("`{}`", gen::template_chars(r, true)),
                    2 => "a".into(),
                    _ => work::lexical(r),
                });
            }
            t.push_str(&s);
        }
        Case::with("positions", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, c: &Case) -> bool {
        c.kind != "huge"
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let made;
        let text = if c.kind == "huge" {
            made = work::build_huge(&c.texts, c.nums[1]);
            o.hit("huge texts");
            o.max("bytes in one text", made.len() as u64);
            &made[..]
        } else {
            c.text()
        };
        let map = PosMap::new(text);
        let mut n = 0;
        let mut lines = 0;
        let mut check = |ev: &Ev| -> Result<bool, String> {
            let (s, e) = (ev.range.start.offset, ev.range.end.offset);
            if s > text.len() || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
                // No place in the source, so nothing to agree with.
                return Err(format!("{} at {}..{} is not a place in the text of {} bytes", mon::describe(&ev.tok), s, e, text.len()));
            }
            positions(&map, ev)?;
            lines = lines.max(ev.range.end.line);
            n += 1;
            Ok(true)
        };
        drive(text, c.nums[0], |s| match &s.answer {
            Ok(ev) => check(ev),
            Err(_) => Ok(true),
        })?;
        let run = mon::run(text);
        for ev in &run.ev {
            check(ev)?;
        }
        o.add("tokens with both positions compared", n as u64);
        o.max("line reported", lines as u64);
        if n >= 3 && (lines >= 2 || !text.is_ascii()) {
            o.nontrivial = true;
        }
        o.sample(if c.kind == "huge" { "huge" } else { "text" }, &mon::clip(text, 1000));
        Ok(())
    }
}

// ---- C04 to C07: against the reference lexer

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Prop {
    C04,
    C05,
    C06,
    C07,
}

fn owner(t: &reflex::Tok) -> Prop {
    match t.kind {
        Kind::Punct(_) | Kind::Ident | Kind::Line | Kind::Eof => Prop::C04,
        Kind::Num(_) if t.may_refuse => Prop::C07,
        Kind::Num(_) => Prop::C05,
        _ => Prop::C06,
    }
}

/// Compare one answer with the reference; which property it concerns and what is wrong.
fn judge(text: &str, s: &Step, o: &mut Obs) -> Option<(Prop, String)> {
    let at = reflex::skip_ws(text, s.from);
    let hints = || format!("hints expression={} template={}", s.hint.expr, s.hint.tmpl);
    match reflex::lex(text, at, s.hint.expr, s.hint.tmpl) {
        Lexed::Unjudged(_) => {
            o.hit("places not judged");
            None
        }
        Lexed::Refuse(why) => match &s.answer {
            Ok(ev) => {
                let m = format!("{:?} ({}) was not refused ({}) but returned as {}", mon::clip(&text[at..], 60), why, hints(), mon::describe(&ev.tok));
                Some((Prop::C07, m))
            }
            Err(_) => {
                o.hit(&format!("refused: {}", why));
                None
            }
        },
        Lexed::Tok(t) => {
            let p = owner(&t);
            match &s.answer {
                Err(v) => {
                    if t.may_refuse {
                        o.hit("malformed numbers refused");
                        None
                    } else {
                        Some((p, format!("{:?} ({}): {}, expected {}", mon::clip(&text[at..], 60), hints(), v.name(), mon::ref_kind_name(&t.kind))))
                    }
                }
                Ok(ev) => match mon::compare(text, ev, &t) {
                    Ok(()) => {
                        o.hit(match (p, &t.kind) {
                            (Prop::C07, _) => "malformed numbers cut short",
                            (_, Kind::Punct(_)) => "punctuators",
                            (_, Kind::Ident) => "names",
                            (_, Kind::Line) => "line terminators",
                            (_, Kind::Eof) => "ends of input",
                            (_, Kind::Num(reflex::Num::Exact(_))) => "numbers with exact values",
                            (_, Kind::Num(reflex::Num::Near(_))) => "numbers with approximate values",
                            (_, Kind::Num(_)) => "numbers beyond range (extent only)",
                            (_, Kind::Str) => "strings",
                            (_, Kind::Template(_)) => "template pieces",
                            (_, Kind::Regex(_)) => "regular expressions",
                            (_, Kind::LineComment) => "line comments",
                            (_, Kind::BlockComment) => "block comments",
                        });
                        None
                    }
                    Err((w, m)) => {
                        let p = if w == Wrong::Kind && p == Prop::C07 { Prop::C07 } else { p };
                        Some((p, format!("{} ({})", m, hints())))
                    }
                },
            }
        }
    }
}

fn against_reference(text: &str, seed: u64, prop: Prop, o: &mut Obs) -> Result<(), String> {
    let mut n = 0;
    let mut mine = 0;
    drive(text, seed, |s| {
        n += 1;
        let at = reflex::skip_ws(text, s.from);
        match reflex::lex(text, at, s.hint.expr, s.hint.tmpl) {
            Lexed::Tok(t) if owner(&t) == prop && t.kind != Kind::Eof => mine += 1,
            Lexed::Refuse(_) if prop == Prop::C07 => mine += 1,
            Lexed::Unjudged(_) => {
                o.hit("places not judged");
                return Ok(false);
            }
            _ => {}
        }
        match judge(text, s, o) {
            None => Ok(true),
            Some((p, m)) if p == prop => Err(m),
            Some(_) => Ok(false),
        }
    })?;
    o.add("answers compared", n);
    o.add("answers that concern this property", mine);
    if mine > 0 {
        o.nontrivial = true;
    }
    Ok(())
}

/// The `i`th string over an alphabet, by length.
fn string_no(alphabet: &[&str], mut i: u64) -> String {
    let k = alphabet.len() as u64;
    let mut len = 0u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alphabet[(i % k) as usize]);
        i /= k;
    }
    s
}
fn strings_upto(alphabet: &[&str], len: u32) -> u64 {
    (0..=len).map(|l| (alphabet.len() as u64).pow(l)).sum()
}

const PUNCT: [&str; 22] = ["<", ">", "=", "!", "+", "-", "*", "&", "|", "^", "%", ".", "?", "/", "{", "}", "(", ";", "a", "1", " ", "\n"];
const SPACES: [&str; 16] = [
    "\t", "\u{B}", "\u{C}", " ", "\u{A0}", "\u{FEFF}", "\n", "\r", "\u{2028}", "\u{2029}", "a", ";", "\u{A1}", "\u{2027}", "\u{202A}", "\u{FEFE}",
];
const NUMS: [&str; 18] = ["0", "1", "7", "8", "9", ".", "e", "E", "x", "X", "o", "b", "B", "a", "F", "+", "-", "_"];
const STRS: [&str; 15] = ["'", "\"", "\\", "\n", "\r", "\u{2028}", "a", "x", "u", "{", "}", "4", "1", "é", " "];
const TMPL: [&str; 11] = ["`", "$", "{", "}", "\\", "\n", "\r", "a", "'", "é", "\u{2029}"];
const REGEX: [&str; 13] = ["/", "[", "]", "\\", "*", "\n", "\r", "a", "=", "g", "é", "\u{2028}", "("];
const COMMENT: [&str; 10] = ["*", "/", "\n", "\r", "\u{2028}", "\u{2029}", "a", "é", "`", " "];

struct Family {
    prefix: &'static str,
    suffix: &'static str,
    alphabet: &'static [&'static str],
    quick: u32,
    thorough: u32,
}
fn families(p: Prop) -> Vec<Family> {
    let f = |prefix, suffix, alphabet, quick, thorough| Family { prefix, suffix, alphabet, quick, thorough };
    match p {
        Prop::C04 => vec![f("", "", &PUNCT, 4, 5), f("", "", &SPACES, 5, 6), f("a", "b", &SPACES, 4, 5)],
        Prop::C05 => vec![f("", "", &NUMS, 5, 5), f("0", "", &NUMS, 5, 5), f("1", ";", &NUMS, 4, 5), f("x=.", ")", &NUMS, 4, 5)],
        Prop::C06 => vec![
            f("'", "'", &STRS, 5, 6),
            f("\"", "\"", &STRS, 5, 6),
            f("'\\", "' x", &STRS, 4, 5),
            f("`", "`", &TMPL, 6, 7),
            f("}", "${ a", &TMPL, 6, 7),
            f("/", "/ a", &REGEX, 5, 6),
            f("/[", "]/g.x", &REGEX, 5, 6),
            f("/*", "*/ a", &COMMENT, 6, 7),
            f("//", "\na", &COMMENT, 5, 6),
        ],
        Prop::C07 => vec![
            f("'", "", &STRS, 5, 6),
            f("\"", "", &STRS, 5, 6),
            f("'a\\", "", &STRS, 5, 6),
            f("'", "'", &STRS, 5, 6),
            f("\"", "\" a", &STRS, 5, 6),
            f("'\\\r", "'", &STRS, 4, 5),
            f("'\\x", "a'", &STRS, 4, 5),
            f("'\\u", "'", &STRS, 5, 6),
            f("'\\u{", "'", &STRS, 5, 6),
            f("/\\", "/g", &REGEX, 4, 5),
            f("`", "", &TMPL, 6, 7),
            f("}", "", &TMPL, 5, 6),
            f("/", "", &REGEX, 5, 6),
            f("/a[", "", &REGEX, 5, 6),
            f("/*", "", &COMMENT, 6, 7),
            f("0", "", &NUMS, 5, 5),
            f("1e", "", &NUMS, 4, 5),
        ],
    }
}
/// Where every character is put.
fn places(p: Prop) -> &'static [&'static str] {
    match p {
        Prop::C04 => &["a§b", "=§=", "§", "a §", "\r§a"],
        Prop::C05 => &["1§", "1.5§2", "0x1§", "0b1§", "1e5§", "0§1"],
        Prop::C06 => &["'§'", "`§`", "/§/g", "/*§*/a", "//§\na", "'\\§'", "`\\§`a", "/\\§/", "/[§]/", "\"§\"", "}§${", "/*§\n*/a", "/a/§", "/a/g§", "'\\u{41}§'"],
        Prop::C07 => &["§", "a§b", "'§", "`§", "/§", "/*§", "'\\§", "'\\x4§'", "'\\u004§'", "'\\u{4§}'", "/\\§", "/[§", "0x§", "1e§", "1§", "=§"],
    }
}
const CHARS: u64 = 0x11_0000 - 0x800;
/// The first place gets every character there is; the others, if quick, those up to U+3000 and every 50th of the rest.
fn characters(t: &Tier, place: usize) -> u64 {
    if t.thorough || place == 0 { CHARS } else { 0x3000 + (CHARS - 0x3000) / 50 }
}
fn character(t: &Tier, place: usize, i: u64) -> char {
    let i = if t.thorough || place == 0 || i < 0x3000 { i } else { 0x3000 + (i - 0x3000) * 50 + place as u64 };
    char::from_u32(if i < 0xD800 { i } else { i + 0x800 } as u32).unwrap_or('a')
}
pub fn placed(places: &[&str], mut i: u64, t: &Tier) -> Option<String> {
    for (k, x) in places.iter().enumerate() {
        let n = characters(t, k);
        if i < n {
            return Some(x.replace('§', character(t, k, i).encode_utf8(&mut [0; 4])));
        }
        i -= n;
    }
    None
}
pub fn placements(places: &[&str], t: &Tier) -> u64 {
    (0..places.len()).map(|k| characters(t, k)).sum()
}

/// Every exponent near a limit of some machine number, and all the small ones.
fn exponents() -> &'static [String] {
    static ALL: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    ALL.get_or_init(all_exponents)
}
fn all_exponents() -> Vec<String> {
    let mut v: Vec<u128> = (0..1200).collect();
    for k in 10..90u32 {
        for d in 0..5u128 {
            v.push((1u128 << k) + d - 2);
        }
    }
    for k in 3..38u32 {
        for d in 0..3u128 {
            v.push(10u128.pow(k) + d - 1);
        }
    }
    for k in 0..64u128 {
        for e in [65_536u128, 1 << 31, 1 << 32, 1 << 63, 1 << 64] {
            v.push(e + k * 7 + 5);
        }
    }
    let mut s: Vec<String> = v.iter().map(|n| n.to_string()).collect();
    for z in [1, 2, 5, 17, 40, 300] {
        for n in ["0", "1", "7", "20", "308", "999"] {
            s.push(format!("{}{}", "0".repeat(z), n));
        }
    }
    s.push("9".repeat(100));
    s.push(format!("1{}", "0".repeat(200)));
    s
}
const MANTISSAS: [&str; 14] = ["1", "9", "0", "0.", "1.", ".5", "0.5", "2.5", "123456789", "0.000001", "9007199254740993", "1797693134862315", ".00000000000000000000001", "100000000000000000000000000"];
fn powers(i: u64) -> Option<String> {
    let e = exponents();
    let (m, i) = (MANTISSAS.get((i / 6) as usize / e.len())?, i);
    let k = i % 6;
    Some(format!("{}{}{}", m, ["e", "E", "e+", "E+", "e-", "E-"][k as usize], e[(i / 6) as usize % e.len()]))
}
fn powers_total(p: Prop) -> u64 {
    if p == Prop::C05 { exponents().len() as u64 * 6 * MANTISSAS.len() as u64 } else { 0 }
}

fn enum_total(p: Prop, t: &Tier) -> u64 {
    powers_total(p) + placements(places(p), t) + families(p).iter().map(|f| strings_upto(f.alphabet, if t.thorough { f.thorough } else { f.quick })).sum::<u64>()
}
fn enum_nth(p: Prop, mut i: u64, t: &Tier) -> Case {
    if i < powers_total(p) {
        return Case::new("enumerated", &powers(i).unwrap());
    }
    i -= powers_total(p);
    for f in families(p) {
        let n = strings_upto(f.alphabet, if t.thorough { f.thorough } else { f.quick });
        if i < n {
            let s = format!("{}{}{}", f.prefix, string_no(f.alphabet, i), f.suffix);
            return Case::new("enumerated", &s);
        }
        i -= n;
    }
    Case::new("enumerated", &placed(places(p), i, t).unwrap())
}

/// Enumerated texts are read under every pair of hints for the first token, then under guided ones.
fn eval_reference(c: &Case, prop: Prop, o: &mut Obs) -> Result<(), String> {
    let text = c.text();
    if c.kind == "enumerated" {
        for k in 0..4u64 {
            let h = H { expr: k & 1 != 0, tmpl: k & 2 != 0, strict: false };
            if k > 0 {
                // Hints matter to `/` and `}` only; C08 sees to that.
                let first = text[reflex::skip_ws(text, 0)..].chars().next();
                if !matches!(first, Some('/') | Some('}')) && k < 3 {
                    continue;
                }
            }
            let mut d = Drive::new(text);
            let mut from = 0;
            for n in 0..text.len() + 2 {
                let hint = if n == 0 { h } else { fixed_hint(text, from) };
                let s = Step { from, hint, answer: d.next(hint) };
                let at = reflex::skip_ws(text, from);
                match reflex::lex(text, at, hint.expr, hint.tmpl) {
                    Lexed::Tok(t) if owner(&t) == prop => o.nontrivial = true,
                    Lexed::Refuse(_) if prop == Prop::C07 => o.nontrivial = true,
                    Lexed::Unjudged(_) => break,
                    _ => {}
                }
                o.hit("answers compared");
                match judge(text, &s, o) {
                    Some((p, m)) if p == prop => return Err(m),
                    Some(_) => break,
                    None => {}
                }
                match &s.answer {
                    Ok(ev) if !is_eof(ev) => {
                        let e = ev.range.end.offset;
                        if e <= from || e > text.len() || !text.is_char_boundary(e) {
                            break;
                        }
                        from = e;
                    }
                    _ => break,
                }
            }
        }
        o.hit("enumerated texts");
        return Ok(());
    }
    o.sample("text", text);
    against_reference(text, c.nums[0], prop, o)
}
fn fixed_hint(text: &str, from: usize) -> H {
    let at = reflex::skip_ws(text, from);
    for k in 0..4 {
        let h = H { expr: k & 1 != 0, tmpl: k & 2 != 0, strict: false };
        if matches!(reflex::lex(text, at, h.expr, h.tmpl), Lexed::Tok(_)) {
            return h;
        }
    }
    H { expr: false, tmpl: false, strict: false }
}

macro_rules! reference_check {
    ($id:ident, $gen:expr, $quick:expr, $thorough:expr, $rule:expr) => {
        pub struct $id;
        impl Check for $id {
            fn id(&self) -> &'static str {
                stringify!($id)
            }
            fn rule(&self) -> &'static str {
                $rule
            }
            fn random(&self, t: &Tier) -> u64 {
                if t.thorough { $thorough } else { $quick }
            }
            fn enumerated(&self, t: &Tier) -> u64 {
                enum_total(Prop::$id, t)
            }
            fn nth(&self, i: u64, t: &Tier) -> Case {
                enum_nth(Prop::$id, i, t)
            }
            fn gen(&self, r: &mut Rng, _i: u64) -> Case {
                let g: fn(&mut Rng) -> String = $gen;
                let t = g(r);
                Case::with("random", vec![t], vec![r.next() >> 16])
            }
            fn shrinks(&self, _c: &Case) -> bool {
                true
            }
            fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
                eval_reference(c, Prop::$id, o)
            }
        }
    };
}

fn names_and_punct(r: &mut Rng) -> String {
    if r.one_in(3) {
        return work::lexical(r);
    }
    let mut s = String::new();
    for _ in 0..r.range(1, 20) {
        match r.below(6) {
            0 => s.push_str(&gen::name(r, 50)),
            1 => {
                // a name of any shape and length
                let n = if r.one_in(8) { r.range(10, 300) } else { r.range(1, 9) };
                let first = b"abcxyzABZ$_";
                let rest = b"abcefxyzAFZ$_0189";
                s.push(first[r.below(first.len())] as char);
                for _ in 1..n {
                    s.push(rest[r.below(rest.len())] as char);
                }
            }
            2 | 3 => {
                for _ in 0..r.range(1, 6) {
                    s.push_str(r.pick(&PUNCT[..18]));
                }
            }
            4 => s.push_str(&gen::space(r, 70)),
            _ => s.push_str(&gen::line(r, 70)),
        }
        if r.one_in(3) {
            s.push_str(&gen::space(r, 40));
        }
    }
    s
}
fn numbers(r: &mut Rng) -> String {
    if r.one_in(8) {
        return work::lexical(r);
    }
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        s.push_str(&gen::number(r, true));
        s.push_str(r.pick(&[" ", ";", ",", ")", "+", "-", "\n", "\u{A0}", "/*a*/", "]", "}", "\u{2028}", "*", "...", ""]));
        if r.one_in(30) {
            s.push_str(r.pick(&["e", "x", "_", ".", "a", "\\u0041", "é"]));
        }
    }
    s
}
fn literals(r: &mut Rng) -> String {
    if r.one_in(6) {
        return work::lexical(r);
    }
    let mut s = String::new();
    for _ in 0..r.range(1, 6) {
        let x = match r.below(7) {
            0 | 1 => gen::string(r, true),
            2 => format!("`{}`", gen::template_chars(r, true)),
            3 => format!("`{}${{", gen::template_chars(r, true)),
            4 => format!("}}{}{}", gen::template_chars(r, true), r.pick(&["`", "${"])),
            5 => gen::regex(r, true),
            _ => {
                if r.one_in(2) {
                    gen::space(r, 100)
                } else {
                    gen::line(r, 100)
                }
            }
        };
        s.push_str(&x);
        s.push_str(r.pick(&["", " ", ";", "\n", "a", "/", "+", "`"]));
    }
    s
}
fn broken(r: &mut Rng) -> String {
    if r.one_in(3) {
        let mut t = String::new();
        if r.one_in(3) {
            t = work::lexical(r);
            t.push_str(r.pick(&["\n", ";", " ", ""]));
        }
        t.push_str(&gen::flawed(r));
        t.push_str(r.pick(&["", "", ";a", "\n'", " \"", "/", "`", "*/", " + 'a'"]));
        return t;
    }
    let mut t = match r.below(4) {
        0 => work::lexical(r),
        1 => numbers(r),
        _ => literals(r),
    };
    for _ in 0..r.range(1, 2) {
        t = gen::mutate_text(r, &t);
    }
    if r.one_in(4) {
        let junk = reflex::JUNK[r.below(reflex::JUNK.len())];
        let cs: Vec<usize> = t.char_indices().map(|(i, _)| i).chain(Some(t.len())).collect();
        let i = cs[r.below(cs.len())];
        t.insert(i, if r.one_in(3) { r.choose(&['#', '@', '\u{0}', '\u{1B}', '\u{7F}']) } else { junk });
    }
    t
}

reference_check!(C04, names_and_punct, 900_000, 8_000_000,
    "Every text of up to 4 (thorough: 5) characters over 22 punctuation, name and space characters and up to 5 (thorough: 6) over 16 white-space, line-break and neighbouring characters, every Unicode character within and between names and operators, and random sequences of names, punctuators, spaces and line breaks, read by the real tokenizer; each answer about a punctuator, name, line terminator or end of input is compared with an independent lexer written from the standard. Non-trivial: an answer of that kind was compared.");
reference_check!(C05, numbers, 900_000, 10_000_000,
    "Every text of up to 5 characters over 18 characters that numbers are made of, bare and after 0, 1 and `x=.`, every Unicode character after a number, numbers of 14 shapes with every exponent up to 1,200 and those around the powers of two and ten up to 10^37, and random well-formed numbers of every base with fractions and exponents up to hundreds of digits, read by the real tokenizer; extent and value are compared with an independent lexer (exact below 2^53, else relative error 1e-9). Non-trivial: a well-formed number was compared.");
reference_check!(C06, literals, 900_000, 8_000_000,
    "Every string, template, regular expression and comment of up to 5 or 6 (thorough: 6 or 7) characters over the characters that matter inside it, closed in the ordinary way, every Unicode character in each (also after a backslash), and random long ones with escapes, line continuations and characters beyond ASCII; kind, extent and carried text of each are compared with an independent lexer. Non-trivial: such a literal or comment was compared.");
reference_check!(C07, broken, 900_000, 8_000_000,
    "Every text of up to 4 to 6 (thorough: 5 to 7) significant characters after an opening quote, backquote, brace, slash, comment start or number prefix, unclosed, and for strings closed, every Unicode character by itself and in such places, random literals of many pieces with one flaw among them, and random literals and programs damaged at random or with characters that start no token put in; wherever an independent lexer finds no token the real tokenizer must refuse. Non-trivial: such a place, or a malformed number, was asked about.");

// ---- C08

pub struct C08;
fn same_answer(a: &Result<Ev, Verdict>, b: &Result<Ev, Verdict>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            format!("{:?}", x.tok) == format!("{:?}", y.tok)
                && x.range.end.offset.wrapping_sub(x.range.start.offset) == y.range.end.offset.wrapping_sub(y.range.start.offset)
        }
        (Err(_), Err(_)) => true,
        _ => false,
    }
}
fn show(a: &Result<Ev, Verdict>) -> String {
    match a {
        Ok(e) => format!("{} at {}..{}", mon::describe(&e.tok), e.range.start.offset, e.range.end.offset),
        Err(v) => v.name(),
    }
}
impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "Random texts read under random hints by the real tokenizer. At every place the same request is repeated on fresh tokenizers: under all 8 hint combinations; with other tokens left where the answer goes; for the rest of the text alone; with other text before it; and with the text some way after the token replaced. Answers must agree wherever the property says the difference cannot matter. Non-trivial: at least three places were compared."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 4_000_000 } else { 750_000 }
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let t = match r.below(4) {
            0 => names_and_punct(r),
            1 => literals(r),
            2 => broken(r),
            _ => work::lexical(r),
        };
        Case::with("places", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let mut r = Rng::new(c.nums[0] ^ 0x55);
        let mut places = 0;
        let mut prefix_hints = vec![];
        drive(text, c.nums[0], |s| {
            if s.from > text.len() || !text.is_char_boundary(s.from) {
                return Ok(false);
            }
            let rest = &text[s.from..];
            let at = reflex::skip_ws(text, s.from);
            let tail = &text[at..];
            let first = tail.chars().next();
            places += 1;
            // Hints: only `/` outside comments and `}` may depend on them.
            let comment = tail.starts_with("//") || tail.starts_with("/*");
            for k in 0..8u32 {
                let h = H { expr: k & 1 != 0, tmpl: k & 2 != 0, strict: k & 4 != 0 };
                if h == s.hint {
                    continue;
                }
                let matters = match first {
                    Some('/') if !comment => h.expr != s.hint.expr,
                    Some('}') => h.tmpl != s.hint.tmpl,
                    _ => false,
                };
                if matters {
                    o.hit("requests whose hints do matter");
                    continue;
                }
                let b = Drive::new(rest).next(h);
                o.hit("answers compared under other hints");
                if !same_answer(&s.answer, &b) {
                    return Err(format!("{:?}: {} under {:?}, but {} under {:?}", mon::clip(tail, 60), show(&s.answer), s.hint, show(&b), h));
                }
            }
            // Nor what the place for the answer holds.
            for _ in 0..4 {
                if let Some((tok, range)) = mon::leftover(r.below(21)) {
                    let was = mon::describe(&tok);
                    let b = Drive::new(rest).next_over(s.hint, tok, range);
                    o.hit("answers compared over what was left in their place");
                    if !same_answer(&s.answer, &b) {
                        return Err(format!("{:?}: {} under {:?}, but {} where the place for it still holds {}", mon::clip(tail, 60), show(&s.answer), s.hint, show(&b), was));
                    }
                }
            }
            // What was read before does not matter.
            let b = Drive::new(rest).next(s.hint);
            o.hit("answers compared without the text before");
            if !same_answer(&s.answer, &b) {
                return Err(format!(
                    "{:?}: {} after {:?}, but {} on its own (hints {:?})",
                    mon::clip(tail, 60),
                    show(&s.answer),
                    mon::clip(&text[..s.from], 80),
                    show(&b),
                    s.hint
                ));
            }
            if r.one_in(3) {
                let pre = r.pick(&["(", "a\n", "'x' ", "`a` ", "/* \n */", "1 ", "é ", "\r\n", "x=\u{2028}", "{", "`${"]);
                if !reflex::id_part(tail.chars().next().unwrap_or(' ')) || true {
                    let other = format!("{}{}", pre, rest);
                    let mut d = Drive::new(&other);
                    let mut from = 0;
                    let mut steps = 0;
                    let mut ok = true;
                    while from < pre.len() && steps < 8 {
                        // Read up to the place where the rest begins.
                        let h = fixed_hint(&other, from);
                        let h = if reflex::skip_ws(&other, from) >= pre.len() { s.hint } else { h };
                        if reflex::skip_ws(&other, from) >= pre.len() {
                            break;
                        }
                        match d.next(h) {
                            Ok(ev) => from = ev.range.end.offset,
                            Err(_) => {
                                ok = false;
                                break;
                            }
                        }
                        steps += 1;
                    }
                    if ok && from <= pre.len() && steps < 8 {
                        let b = d.next(s.hint);
                        o.hit("answers compared with other text before");
                        if !same_answer(&s.answer, &b) {
                            return Err(format!("{:?}: {} after {:?}, but {} after {:?}", mon::clip(tail, 60), show(&s.answer), mon::clip(&text[..s.from], 80), show(&b), pre));
                        }
                    }
                }
            }
            // What lies beyond the token does not matter.
            if let Ok(ev) = &s.answer {
                let e = ev.range.end.offset;
                if e <= text.len() && e > s.from && text.is_char_boundary(e) && !is_eof(ev) {
                    let next = text[e..].chars().next();
                    // One separating character ends every token there is.
                    if matches!(next, None | Some(' ') | Some(';') | Some(')') | Some('\n') | Some(',')) || closed(ev) {
                        let keep = if closed(ev) { e } else { e + next.map_or(0, |c| c.len_utf8()) };
                        for other in ["", "\n", "'", "\"\\", "`${", "*/", "/", "1e5", "abc", "}", "\u{2028}é", "//x"] {
                            if !r.one_in(3) {
                                continue;
                            }
                            if next.is_none() && !closed(ev) && !other.is_empty() {
                                continue;
                            }
                            // A line break ends a line comment and must stay one.
                            let t2 = format!("{}{}", &text[s.from..keep], other);
                            let b = Drive::new(&t2).next(s.hint);
                            o.hit("answers compared with other text after");
                            if !same_answer(&s.answer, &b) {
                                return Err(format!(
                                    "{:?}: {} here, but {} when followed by {:?}",
                                    mon::clip(&text[s.from..keep], 60),
                                    show(&s.answer),
                                    show(&b),
                                    other
                                ));
                            }
                        }
                    }
                }
            }
            prefix_hints.push(s.hint);
            Ok(true)
        })?;
        interesting(o, places);
        o.sample("text", text);
        Ok(())
    }
}
/// Does the token end with its own terminator?
fn closed(ev: &Ev) -> bool {
    use jsparse::verif_hooks::tokens::{CommentFormat, Token};
    match &ev.tok {
        Token::StringLiteral(_) | Token::Template(_) => true,
        Token::Comment(c) => c.format == CommentFormat::Block,
        Token::Punctuator(p) => matches!(mon::punct_text(*p), "(" | ")" | "[" | "]" | "{" | "}" | ";" | "," | "~" | "?" | ":"),
        _ => false,
    }
}
