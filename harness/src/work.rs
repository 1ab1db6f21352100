//! Workloads shared by the checks.

use crate::case::unescape;
use crate::gen::{self, G};
use crate::mon::H;
use crate::novel;
use crate::reflex::{self, Lexed};
use crate::rng::Rng;
use std::sync::OnceLock;

pub fn corpus() -> &'static Vec<String> {
    static C: OnceLock<Vec<String>> = OnceLock::new();
    C.get_or_init(|| include_str!("../corpus/cases.txt").lines().filter_map(unescape).collect())
}

pub fn program(r: &mut Rng, max: usize) -> Vec<G> {
    let o = gen::Opts::random(r);
    let size = if r.one_in(3) { r.range(2, 12) } else { r.range(3, max) };
    gen::program(r, o, size as isize)
}

/// A program, rendered.
pub fn source(r: &mut Rng, max: usize) -> String {
    let p = program(r, max);
    let st = gen::Style::random(r);
    let t = gen::render(r, &p, st);
    beyond(r, t)
}
/// Where the source has new numbers, the text now and then comes after (or before) as many of something.
fn beyond(r: &mut Rng, t: String) -> String {
    let most = if new_numbers() && r.one_in(30) { 70_000 } else { 3_000 };
    match novel::num(r, 30, most) {
        None => t,
        Some(n) => {
            let unit = r.pick(&["\n", " ", ";", "a;\n", "/**/", "'a';", "f();", "var a;", "{}", "a=b/c;", "if(a);", "/a/g;", "`a`;", "x=>{};", "{", "a", "1,", "!", "a+", "f(", "[", "é*/ /*"]);
            match unit {
                "{" => format!("{}{}{}", "{".repeat(n.min(250)), t, "}".repeat(n.min(250))),
                "f(" | "[" => format!("{}{}a{}", t, unit.repeat(n.min(250)), (if unit == "[" { "]" } else { ")" }).repeat(n.min(250))),
                "a" => format!("{};{}", "a".repeat(n), t),
                "1," => format!("[{}];{}", unit.repeat(n), t),
                "!" => format!("{}a;{}", unit.repeat(n.min(250)), t),
                "a+" => format!("{}a;{}", unit.repeat(n), t),
                "é*/ /*" => format!("/*{}*/{}", "é".repeat(n), t),
                _ if r.one_in(4) => format!("{};\n{}", t, unit.repeat(n)),
                _ => format!("{}{}", unit.repeat(n), t),
            }
        }
    }
}
fn new_numbers() -> bool {
    !novel::numbers().is_empty()
}

pub fn from_corpus(r: &mut Rng) -> String {
    let c = corpus();
    match r.below(5) {
        0 | 1 => c[r.below(c.len())].clone(),
        2 => format!("{}{}{}", c[r.below(c.len())], r.pick(&["\n", ";\n", " ", ";"]), c[r.below(c.len())]),
        _ => {
            let t = c[r.below(c.len())].clone();
            gen::mutate_text(r, &t)
        }
    }
}

/// Constructs within constructs, up to a few hundred levels: a few kinds taking turns, or all kinds; what is in the middle, and what may come after.
pub fn deep(r: &mut Rng) -> String {
    use crate::parsechecks::{EXPR_CTX, PROBES, STMT_CTX};
    const BODIES: [&str; 12] = [
        "(function(){§})", "x=>{§}", "{m(){§}}", "async x=>{§}", "(function*(){§})", "class{*m(){§}}", "{async m(){§}}", "({get a(){§}})", "(async function(){§})", "class{static set a(b){§}}", "(a,b)=>{§}", "`${function(){§}}`",
    ];
    const STMTS: [&str; 16] = [
        "{§}", "if(a){§}", "if(a){b}else{§}", "if(a);else §", "while(a)§", "for(;;){§}", "for(a of b)§", "try{§}finally{}", "try{}catch(a){§}", "switch(a){case b:§}", "switch(a){default:§}", "a:§", "do{§}while(a)", "do §\nwhile(a)", "function f(){§}",
        "class A{m(){§}}",
    ];
    let mid = |r: &mut Rng| match r.below(6) {
        0 => "/a/g".to_string(),
        1 => "a/b/c".to_string(),
        2 => "a in b".to_string(),
        3 => PROBES[r.below(PROBES.len())].to_string(),
        4 => "`${a}`".to_string(),
        _ => "a".to_string(),
    };
    // What goes around, outermost last, and whether it takes a statement and is one.
    let turn: Vec<(&str, bool, bool)> = (0..r.choose(&[1, 1, 1, 2, 3, 40]))
        .map(|_| match r.below(8) {
            0 => (BODIES[r.below(BODIES.len())], true, false),
            1 | 2 => (STMTS[r.below(STMTS.len())], true, true),
            3 => (STMT_CTX[r.below(STMT_CTX.len())], false, true),
            _ => (EXPR_CTX[r.below(EXPR_CTX.len())], false, false),
        })
        .collect();
    let n = if let Some(n) = novel::num(r, 3, 270) { n } else if r.one_in(3) { r.range(5, 40) } else { r.range(40, 270) };
    let (mut open, mut close) = (vec![], String::new());
    let mut stmt = false; // what the text is so far
    let middle = mid(r);
    let mut levels = 0;
    let late = r.one_in(2);
    while levels < n {
        let (c, takes, is) = turn[levels % turn.len()];
        levels += 1;
        let c = if c.contains("export") { "§;" } else { c };
        if stmt && !takes {
            open.push("(function(){");
            close.push_str("})");
            levels += 1;
        } else if !stmt && takes {
            close.push_str(r.pick(&["\n", ";", ";"]));
        }
        let at = c.find('§').unwrap();
        open.push(&c[..at]);
        close.push_str(&c[at + '§'.len_utf8()..]);
        stmt = is;
        if late && r.one_in(20) {
            // something after a level has ended
            close.push_str(&if is {
                format!("\n{}", r.pick(&["/a/;", "a;", "yield a;", "for(a in b);", "{}", "await a", "`${a}`;", "a\n++b;"]))
            } else {
                r.pick(&["/b/c", "+a", ",a", " in a", ".b", "(a)", "[/a/]", "`${a}`", "?a:/b/", "&&/a/"]).to_string()
            });
        }
    }
    let mut t: String = open.iter().rev().copied().collect();
    t.push_str(&middle);
    t.push_str(&close);
    t.push_str(r.pick(&["", "", ";", "\na", "\n/a/", "\nyield", "\nx=a in b", "\n}", ")", "\nawait", "\nfor(x=a in b;;);"]));
    t
}

/// Text of any kind: what kind, and the text.
pub fn any(r: &mut Rng, max: usize) -> (&'static str, String) {
    match r.below(20) {
        0..=6 => ("program", source(r, max)),
        7..=11 => {
            let mut p = program(r, max / 2 + 3);
            for _ in 0..r.range(1, 3) {
                gen::mutate(r, &mut p);
            }
            let st = gen::Style::random(r);
            ("changed tokens", gen::render(r, &p, st))
        }
        12..=14 => {
            let mut t = source(r, max / 2 + 3);
            for _ in 0..r.range(1, 2) {
                t = gen::mutate_text(r, &t);
            }
            ("changed characters", t)
        }
        15..=17 if r.one_in(100) => ("long list", if r.one_in(2) { gen::list(r) } else { gen::bad_list(r) }),
        15..=17 if r.one_in(60) => ("long lexemes", gen::longer(30, || source(r, 20))),
        15..=17 if r.one_in(60) => ("deep", deep(r)),
        15..=17 => ("corpus", from_corpus(r)),
        _ => ("soup", gen::soup(r, 60)),
    }
}

/// A recipe for a text with more lines, longer lines or more bytes than counters may have been made for: what comes first, what is repeated, what comes last, and how often.
pub fn huge(r: &mut Rng) -> (Vec<String>, u64) {
    let line = ["\n", "\r\n", "\u{2028}", "\u{2029}", "\r"];
    let (pre, unit, suf, size) = match r.below(12) {
        // tokens of their own
        0 => ("a;".into(), r.pick(&line).to_string(), String::new(), 17),
        1 => (String::new(), r.pick(&["a;", "a\n", "é+\n", "`\n`;", "/*\n*/", "//\n", "'\\\n';", "/a/;", "1.5e3,\u{2028}"]).to_string(), String::new(), 17),
        // within one token, or between two
        2 => ("`a".into(), r.pick(&line).to_string(), "b`".into(), 21),
        3 => ("/*".into(), r.pick(&["\n", "a\r\n", "\u{2028}", "é\n", "* \n"]).to_string(), "*/a".into(), 24),
        4 => ("'".into(), r.pick(&["\\\n", "\\\r\n", "\\\u{2028}", "\\\r", "a\\\n"]).to_string(), "'a".into(), 19),
        5 => ("`a".into(), r.pick(&["b", "é", "日", "\u{1F600}", "$", "\\`", "\n日"]).to_string(), "${b".into(), 21),
        6 => ("'".into(), r.pick(&["b", "é", "日", "\u{1F600}", "\\'", "\\x41", "\\u{41}"]).to_string(), "';".into(), 21),
        7 => ("a".into(), r.pick(&[" ", "\t", "\u{A0}", "\u{FEFF}", "\u{C}"]).to_string(), "=1".into(), 24),
        8 => ("//".into(), r.pick(&["b", "é", "日", "\u{1F600}", " "]).to_string(), "\na".into(), 24),
        9 => ("/".into(), r.pick(&["b", "é", "[/]", "\\/", "(\u{1F600})"]).to_string(), "/g;a".into(), 21),
        10 => (r.pick(&["a", "1", "1e", "0x", "0b", ".5"]).into(), r.pick(&["0", "1"]).to_string(), ";b".into(), 18),
        _ => ("/*\n*/".into(), r.pick(&["/**/", "\n", " /*\n*/", ";"]).to_string(), "a".into(), 18),
    };
    let size: u32 = if r.one_in(3) { size } else { size.min(17) };
    let n = (1u64 << size) + r.below(5) as u64 - 2 + if r.one_in(4) { r.below(1 << size) as u64 } else { 0 };
    let pre: String = pre;
    (vec![pre, unit, format!("{}{}", suf, lexemes(r, 6))], n)
}
pub fn build_huge(t: &[String], n: u64) -> String {
    format!("{}{}{}", t[0], t[1].repeat(n as usize), t[2])
}

/// Text rich in lexical detail.
pub fn lexical(r: &mut Rng) -> String {
    if r.one_in(60) {
        return gen::longer(4, || lexemes(r, 5));
    }
    match r.below(8) {
        0 => source(r, 40),
        1 => any(r, 40).1,
        2 | 3 => gen::soup(r, 50),
        _ => lexemes(r, 12),
    }
}

/// A sequence of lexemes.
pub fn lexemes(r: &mut Rng, most: usize) -> String {
            let mut s = String::new();
            for _ in 0..r.range(1, most) {
                let x = match r.below(14) {
                    0 | 1 => gen::number(r, true),
                    2 | 3 => gen::string(r, true),
                    4 => format!("`{}`", gen::template_chars(r, true)),
                    5 => format!("`{}${{", gen::template_chars(r, true)),
                    6 => format!("}}{}{}", gen::template_chars(r, true), r.pick(&["`", "${"])),
                    7 | 8 => gen::regex(r, true),
                    9 => gen::line(r, 100),
                    10 => gen::space(r, 100),
                    11 => gen::name(r, 50),
                    12 => {
                        let mut p = String::new();
                        for _ in 0..r.range(1, 6) {
                            p.push_str(r.pick(&["<", ">", "=", "!", "+", "-", "*", "&", "|", "^", "%", ".", "~", "?", ":", ",", ";", "(", ")", "[", "]", "{"]));
                        }
                        p
                    }
                    _ => gen::pool(r).to_string(),
                };
                s.push_str(&x);
                if r.one_in(3) {
                    s.push_str(&gen::space(r, 20));
                }
            }
            s
}

/// A hint for what comes at `off`; mostly one under which a token can be read there.
pub fn hint_at(r: &mut Rng, text: &str, off: usize) -> H {
    let at = if cfg!(miri) { off } else { reflex::skip_ws(text, off) };
    let mut h = H { expr: r.one_in(2), tmpl: r.one_in(3), strict: r.one_in(3) };
    if cfg!(miri) {
        // The reference would take the interpreter's time.
        return h;
    }
    for _ in 0..3 {
        if matches!(reflex::lex(text, at, h.expr, h.tmpl), Lexed::Tok(_)) || r.one_in(12) {
            break;
        }
        if r.one_in(2) {
            h.expr = !h.expr;
        } else {
            h.tmpl = !h.tmpl;
        }
    }
    h
}
