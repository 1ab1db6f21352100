//! C01 and C09 to C16: what the parser decides, and how it reads.

use crate::case::{Case, Check, Obs, Tier};
use crate::gen::{self, G};
use crate::phrases;
use crate::mon::{self, Drive, Ev, Run, Verdict};
use crate::refparse::{self, Class, Outcome};
use crate::reflex::{self, Kind};
use crate::rng::Rng;
use crate::work;

fn verdict_hit(o: &mut Obs, class: Class, v: &Verdict) {
    let v = match v {
        Verdict::Accept => "accepted",
        Verdict::Reject { lexer: true } => "rejected by the tokenizer",
        Verdict::Reject { lexer: false } => "rejected by the parser",
        Verdict::Fault(_) => "fault",
        Verdict::Budget => "endless",
    };
    let c = match class {
        Class::Valid => "valid",
        Class::Early => "early error",
        Class::Gray => "not judged",
        Class::Invalid => "outside the grammar",
    };
    o.hit(&format!("{}: {}", c, v));
}

// ---- C01

pub struct C01;

/// Bracketing constructs: what opens one, what closes it, and what may stand in the middle.
pub const NESTS: [(&str, &str, &str); 44] = [
    ("(", ")", "a"),
    ("[", "]", "a"),
    ("{", "}", ";"),
    ("`${", "}`", "a"),
    ("f(", ")", "a"),
    ("a[", "]", "a"),
    ("{a:", "}", "1"),
    ("({a:", "})", "1"),
    ("({[", "]:1})", "a"),
    ("x=>", "", "a"),
    ("x=>{", "}", ";"),
    ("(x=", ")=>a", "a"),
    ("function f(){", "}", ";"),
    ("(function(){", "})()", ";"),
    ("(function(a=", "){})", "a"),
    ("class A{m(){", "}}", ";"),
    ("(class extends ", "{})", "a"),
    ("(class{[", "](){}})", "a"),
    ("if(a){", "}", ";"),
    ("if(a)", "", ";"),
    ("if(a);else ", "", ";"),
    ("while(a){", "}", ";"),
    ("for(;;){", "}", ";"),
    ("for(a of b)", "", ";"),
    ("for(", ";;);", "a"),
    ("do ", "while(a)", ";"),
    ("try{", "}catch(e){}", ";"),
    ("try{}finally{", "}", ";"),
    ("switch(a){case 1:", "}", ";"),
    ("switch(", "){}", "a"),
    ("a:", "", ";"),
    ("!", "", "a"),
    ("- ", "", "a"),
    ("typeof ", "", "a"),
    ("new ", "", "a"),
    ("new a(", ")", "a"),
    ("a?", ":b", "a"),
    ("a?b:", "", "a"),
    ("a=", "", "a"),
    ("a**", "", "a"),
    ("[...", "]", "a"),
    ("var [a=", "]=b", "a"),
    ("async x=>", "", "a"),
    ("a`${", "}`", "a"),
];

pub fn nest(k: usize, depth: usize) -> String {
    let (open, close, mid) = NESTS[k % NESTS.len()];
    if open.starts_with("var [") {
        return format!("var {}b{}=c", "[".repeat(depth), "]".repeat(depth));
    }
    format!("{}{}{}", open.repeat(depth), mid, close.repeat(depth))
}

/// Where every character is put.
const WITHIN: [&str; 24] = [
    "a§", "§", "§a", "'§", "'§'", "`§", "`§`", "/§", "/§/", "/*§", "/*§*/", "//§", "1§", "1e§", "0x§", "'\\§", "'\\x§", "'\\u{§", "/\\§", "/[§", "`\\§", "`${§", "/a/g§", "a=§=",
];
impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "Random texts of every kind (valid, damaged, truncated, hostile characters, long literals), each parsed by the real parser through a recording token source with a budget of one request per byte plus 64, and read by the real tokenizer under random hints; built with overflow checks and debug assertions; every Unicode character among and inside tokens; every text one token away from any of 580 phrases that between them use every production (also in bodies), and every beginning of those, and their rests; every bracketing construct nested 10 to 300 deep, whole, truncated and with a wrong middle, on an 8 MB stack. Ending in a panic of the language runtime, by a signal, or over budget is a violation. Non-trivial: distinct texts of at least three characters."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 12_000_000 } else { 1_350_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        (NESTS.len() * if t.thorough { 12 * 6 } else { 12 * 2 }) as u64 + crate::lexchecks::placements(&WITHIN, t) + phrases::texts(t.thorough) + phrases::cuts()
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let nests = (NESTS.len() * if t.thorough { 12 * 6 } else { 12 * 2 }) as u64;
        if i >= nests {
            let (i, p, n) = (i - nests, crate::lexchecks::placements(&WITHIN, t), phrases::texts(t.thorough));
            if i >= p + n {
                return Case::with("cut", vec![phrases::cut(i - p - n)], vec![i]);
            }
            if i >= p {
                return Case::with("one token away", vec![phrases::text(i - p, t.thorough)], vec![i]);
            }
            return Case::with("every character", vec![crate::lexchecks::placed(&WITHIN, i, t).unwrap()], vec![i]);
        }
        let per = if t.thorough { 72 } else { 24 };
        let (k, j) = ((i / per) as usize, i % per);
        let depth = [10, 40, 100, 150, 200, 299, 300, 64, 65, 33, 128, 256][(j % 12) as usize] + (j / 12) as usize;
        let full = nest(k, depth);
        let mut r = Rng::new(i);
        let t = match j / 12 {
            0 => full,
            1 => {
                let cs: Vec<char> = full.chars().collect();
                cs[..cs.len() - r.below(cs.len() / 2 + 1)].iter().collect()
            }
            _ => gen::mutate_text(&mut r, &full),
        };
        Case::new("nested", &t)
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let t = match r.below(16) {
            0 => gen::soup(r, 400),
            1 => {
                // any characters at all
                let n = r.below(30);
                (0..n).map(|_| gen::soup_char(r)).collect()
            }
            2 => {
                // a long literal or a long tail
                let n = r.range(100, 3000);
                let unit = r.pick(&["a", "é", "0", "\\\\", "\\n", "$", "*", "/", " ", "日", "\n", "1e", "(", "}", "\u{2028}", "[", "'", "`"]);
                let pre = r.pick(&["'", "\"", "`", "/", "/*", "//", "0x", "1", ".", "a", "1e", "0b", "/[", "", "`${", "'\\u{", "/a/"]);
                format!("{}{}{}", pre, unit.repeat(n / unit.len()), r.pick(&["'", "\"", "`", "/", "*/", "\n", "", "}", ";"]))
            }
            3 => {
                let s = work::source(r, 300);
                s
            }
            4 => {
                // cut anywhere
                let s = work::source(r, 60);
                let cs: Vec<char> = s.chars().collect();
                cs[..r.below(cs.len() + 1)].iter().collect()
            }
            5 => {
                let d = r.range(2, 200);
                let k = r.below(NESTS.len());
                let t = nest(k, d);
                gen::mutate_text(r, &t)
            }
            6 => {
                // nests within nests
                let (mut open, mut close) = (String::new(), String::new());
                for _ in 0..r.range(2, 60) {
                    let (a, b, _) = NESTS[r.below(NESTS.len())];
                    open.push_str(a);
                    close.insert_str(0, b);
                }
                format!("{}a{}", open, close)
            }
            7 => format!("{}{}", gen::soup(r, 20), gen::soup_char(r)),
            _ => work::any(r, 60).1,
        };
        Case::with("text", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, c: &Case) -> bool {
        c.kind == "text"
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        o.nontrivial = text.chars().count() >= 3;
        if c.kind == "nested" {
            let t = text.to_string();
            let h = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let r = mon::run(&t);
                    (r.verdict, r.requests)
                })
                .unwrap();
            let (v, n) = h.join().map_err(|_| "the parsing thread failed".to_string())?;
            o.hit(&format!("nested: {}", short(&v)));
            return ended(text, &v, n);
        }
        let run = mon::run(text);
        o.hit(short(&run.verdict));
        o.add("token requests", run.requests as u64);
        o.max("token requests for one text", run.requests as u64);
        ended(text, &run.verdict, run.requests)?;
        if c.nums[0] % 4 == 0 {
            let v = mon::plain(text);
            if let Verdict::Fault(m) = v {
                return Err(format!("parse_root ended in a fault: {}", m));
            }
            o.hit("parsed without a recording source as well");
        }
        let mut n = 0;
        crate::lexchecks::drive(text, c.nums[0], |s| {
            n += 1;
            match &s.answer {
                Err(Verdict::Fault(m)) => Err(format!("the tokenizer ended in a fault under hints {:?}: {}", s.hint, m)),
                _ => {
                    if n > text.len() + 8 {
                        return Err("the tokenizer never reaches the end of input".into());
                    }
                    Ok(true)
                }
            }
        })?;
        o.add("direct token requests", n as u64);
        o.sample("text", text);
        Ok(())
    }
}
fn short(v: &Verdict) -> &'static str {
    match v {
        Verdict::Accept => "accepted",
        Verdict::Reject { .. } => "rejected",
        Verdict::Fault(_) => "fault",
        Verdict::Budget => "endless",
    }
}
fn ended(text: &str, v: &Verdict, requests: usize) -> Result<(), String> {
    match v {
        Verdict::Fault(m) => Err(format!("parsing ended in a fault: {}", m)),
        Verdict::Budget => Err(format!("the parser asked for more than {} tokens of a text of {} bytes", mon::budget_for(text), text.len())),
        _ => {
            let _ = requests;
            Ok(())
        }
    }
}

// ---- C09, C10

/// Token sequences of up to this length are enumerated.
pub const VOCAB: [&str; 74] = [
    "{", "}", "(", ")", "[", "]", ";", ",", "?", ":", ".", "...", "=", "=>", "+", "++", "-", "*", "**", "/", "+=", "<", "!", "~", "&&", "a", "b", "1", "'s'", "`t`",
    "`h${", "}`", "/r/g", "in", "of", "let", "const", "var", "function", "class", "async", "await", "yield", "static", "get", "set", "new", "this", "super", "extends",
    "return", "throw", "if", "else", "for", "while", "do", "try", "catch", "finally", "switch", "case", "default", "break", "continue", "import", "export", "from", "as",
    "typeof", "null", "with", "debugger", "\n",
];
/// A smaller vocabulary for longer sequences.
const CORE: [&str; 22] = ["{", "}", "(", ")", "[", "]", ";", ",", ":", ".", "=", "=>", "+", "a", "1", "function", "class", "if", "for", "in", "\n", "/"];

fn sequence(vocab: &[&str], mut i: u64) -> String {
    let k = vocab.len() as u64;
    let mut len = 0u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    let mut s = String::new();
    for n in 0..len {
        if n > 0 {
            s.push(' ');
        }
        s.push_str(vocab[(i % k) as usize]);
        i /= k;
    }
    s
}
fn count(k: usize, len: u32) -> u64 {
    (0..=len).map(|l| (k as u64).pow(l)).sum()
}

fn valid_text(r: &mut Rng) -> String {
    match r.below(12) {
        0 => work::corpus()[r.below(work::corpus().len())].clone(),
        1 => work::from_corpus(r),
        2 => {
            let mut p = work::program(r, 25);
            gen::mutate(r, &mut p);
            let st = gen::Style::random(r);
            gen::render(r, &p, st)
        }
        3 if r.one_in(25) => gen::list(r),
        4 if r.one_in(12) => work::deep(r),
        3 => work::source(r, 300),
        4 if r.one_in(25) => gen::longer(20, || work::source(r, 40)),
        _ => work::source(r, 70),
    }
}
fn invalid_text(r: &mut Rng) -> String {
    match r.below(14) {
        0 => work::from_corpus(r),
        1 | 2 => {
            let t = work::source(r, 30);
            gen::mutate_text(r, &t)
        }
        3 if r.one_in(25) => gen::bad_list(r),
        3 if r.one_in(12) => {
            let t = work::deep(r);
            gen::mutate_text(r, &t)
        }
        3 => gen::soup(r, 40),
        4 => {
            // a short sequence of tokens
            let n = r.range(2, 9);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(VOCAB[r.below(VOCAB.len())]);
                s.push(' ');
            }
            s
        }
        5 => {
            let c = work::corpus();
            let mut p: Vec<G> = refparse::classify(&c[r.below(c.len())]).toks.iter().map(|_| G::Semi).collect();
            p.clear();
            let t = &c[r.below(c.len())];
            p.extend(tokens_of(t));
            gen::mutate(r, &mut p);
            let st = gen::Style::random(r);
            gen::render(r, &p, st)
        }
        _ => {
            let mut p = work::program(r, 40);
            for _ in 0..r.range(1, 2) {
                gen::mutate(r, &mut p);
            }
            let st = if r.one_in(2) { gen::Style::plain() } else { gen::Style::random(r) };
            gen::render(r, &p, st)
        }
    }
}
/// The tokens the reference sees in a text, as far as it gets.
pub fn tokens_of(t: &str) -> Vec<G> {
    refparse::classify(t).toks.iter().filter(|k| k.end > k.start).map(|k| G::T(t[k.start..k.end].to_string())).collect()
}

pub struct C09;
impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        "Random modules over the whole grammar (rendered with random trivia, line breaks and omitted semicolons), a corpus of feature cases, slightly damaged programs, every text one token away (removed, doubled, cut off, swapped, replaced or preceded by any of 74) from any of 580 phrases that between them use every production, by itself and in 16 kinds of bodies (quick: a quarter of those); and every sequence of up to 3 tokens over a vocabulary of 74 (up to 4 or 5 over 22). An independent recogniser written from the standard decides which are valid; those must be accepted. Non-trivial: the text is valid and has at least three tokens."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 8_000_000 } else { 750_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        enum_count(t)
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        enum_case(i, t)
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        Case::new("random", &valid_text(r))
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let want = refparse::classify(text);
        if c.kind == "enumerated" && want.class != Class::Valid {
            o.hit("enumerated sequences that are not valid");
            return Ok(());
        }
        let run = mon::run(text);
        verdict_hit(o, want.class, &run.verdict);
        if want.class == Class::Valid {
            o.nontrivial = want.toks.len() >= 3;
            for t in &want.toks {
                if t.kind == Kind::Ident && refparse::is_reserved(&text[t.start..t.end]) {
                    o.hit(&format!("keyword {}", &text[t.start..t.end]));
                }
            }
            o.sample("valid", text);
            if !run.verdict.accepted() {
                return Err(format!("a valid module was {} (having read up to byte {}): {:?}", run.verdict.name(), run.read_to(), mon::clip(text, 300)));
            }
        }
        Ok(())
    }
}
fn enum_count(t: &Tier) -> u64 {
    phrases::texts(t.thorough)
        + if t.thorough {
            count(VOCAB.len(), 3) + count(CORE.len(), 5) + 4_000_000
        } else {
            count(VOCAB.len(), 3) + count(CORE.len(), 4)
        }
}
fn enum_case(mut i: u64, t: &Tier) -> Case {
    let n = phrases::texts(t.thorough);
    if i < n {
        return Case::new("enumerated", &phrases::text(i, t.thorough));
    }
    i -= n;
    let a = count(VOCAB.len(), 3);
    if i < a {
        return Case::new("enumerated", &sequence(&VOCAB, i));
    }
    i -= a;
    let b = count(CORE.len(), 5);
    if i < b {
        return Case::new("enumerated", &sequence(&CORE, i));
    }
    // a spread over the sequences of four
    let k = count(VOCAB.len(), 3) + (i - b).wrapping_mul(104_729) % (VOCAB.len() as u64).pow(4);
    Case::new("enumerated", &sequence(&VOCAB, k))
}

pub struct C10;
impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "Random modules with one or two tokens removed, added, replaced, swapped, repeated, moved or cut off, texts with damaged characters, short random token sequences, damaged corpus cases, every text one token away (removed, doubled, cut off, swapped, replaced or preceded by any of 74) from any of 580 phrases that between them use every production, by itself and in 16 kinds of bodies (quick: a quarter of those); and every sequence of up to 3 tokens over a vocabulary of 74 (up to 4 or 5 over 22). An independent recogniser written from the standard, which gives the benefit of every laxness the property allows, decides which are outside the grammar; those must be rejected. Non-trivial: the text is outside the grammar and at least two characters long."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 10_000_000 } else { 900_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        enum_count(t)
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        enum_case(i, t)
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        Case::new("random", &invalid_text(r))
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let run = mon::run(text);
        if c.kind == "enumerated" && !run.verdict.accepted() {
            o.hit("enumerated sequences rejected");
            o.nontrivial = true;
            return Ok(());
        }
        let want = refparse::classify(text);
        verdict_hit(o, want.class, &run.verdict);
        if want.class == Class::Invalid {
            o.nontrivial = text.len() >= 2;
            o.sample("outside the grammar", text);
            if run.verdict.accepted() {
                return Err(format!("a text outside the grammar (no derivation past byte {}) was accepted: {:?}", want.far, mon::clip(text, 300)));
            }
        }
        Ok(())
    }
}

// ---- C11

/// Compare what the parser was given with the token sequence the standard assigns to the text.
fn same_tokens(text: &str, run: &Run, want: &Outcome, o: &mut Obs) -> Result<u64, String> {
    let mut slashes = 0;
    let mut got = run.ev.iter().filter(|e| !e.trivia());
    let mut toks: Vec<reflex::Tok> = vec![];
    for t in &want.toks {
        toks.push(reflex::Tok { kind: t.kind.clone(), start: t.start, end: t.end, may_refuse: false, odd_escape: false });
    }
    for t in &toks {
        let slash = text[t.start..].starts_with('/') || text[t.start..].starts_with('}');
        if slash {
            slashes += 1;
        }
        match got.next() {
            Some(ev) => {
                let same = mon::kind_name(&ev.tok) == mon::ref_kind_name(&t.kind) && (ev.range.start.offset, ev.range.end.offset) == (t.start, t.end);
                if !same {
                    return Err(format!(
                        "{:?} at byte {} was read as {} at {}..{} instead of {} at {}..{}, in {:?}",
                        mon::clip(&text[t.start..], 40),
                        t.start,
                        mon::describe(&ev.tok),
                        ev.range.start.offset,
                        ev.range.end.offset,
                        mon::ref_kind_name(&t.kind),
                        t.start,
                        t.end,
                        mon::clip(text, 300)
                    ));
                }
                if slash {
                    o.hit(match t.kind {
                        Kind::Regex(_) => "slashes read as regular expressions",
                        Kind::Template(_) => "braces read as template continuations",
                        Kind::Punct("}") => "braces read as closing braces",
                        _ => "slashes read as operators",
                    });
                }
            }
            None => {
                // The parser stopped before. If it did so while asking for this token, that is ours.
                if let (Some(h), Verdict::Reject { lexer: true }) = (run.pending, &run.verdict) {
                    if slash || true {
                        return Err(format!(
                            "{:?} at byte {} (a {}) could not be read as the parser asked, {:?}, in {:?}",
                            mon::clip(&text[t.start..], 40),
                            t.start,
                            mon::ref_kind_name(&t.kind),
                            h,
                            mon::clip(text, 300)
                        ));
                    }
                }
                return Ok(slashes);
            }
        }
    }
    Ok(slashes)
}

/// Programs in which slashes and braces stand after and before everything.
fn slashy(r: &mut Rng) -> String {
    if r.one_in(80) {
        return work::deep(r);
    }
    if r.one_in(3) {
        let o = gen::Opts { odd_names: 15, odd_literals: 20, slashes: 30, templates: 25, functions: 15, for_heads: 8, restricted: 15, modules: 5 };
        let size = r.range(5, 60) as isize;
        let p = gen::program(r, o, size);
        let st = gen::Style::random(r);
        return gen::render(r, &p, st);
    }
    if r.one_in(2) {
        // Every kind of ending followed by every kind of slash.
        let before = [
            "a", "1", "'s'", "`t`", "`${a}`", "/r/g", "this", "null", "true", "super.x", "a.b", "a.if", "a.return", "a[0]", "a()", "(a)", "[a]", "{}", "({})", "a++", "a--", "x={}", "x=function(){}",
            "x=class{}", "function f(){}", "class A{}", "class A extends B{}", "if(a)", "while(a)", "for(;;)", "for(a of b)", "else", "do", "return", "throw", "case 1:", "default:", "typeof",
            "delete", "void", "new", "in", "of", "instanceof", "yield", "await", "async", "let", "get", "static", "=>", "a=>{}", "x=a=>{}", "()=>{}", "=", "+", "-", "!", "~", "?", ":", ",", ";", "(", "[", "{", "}",
            ")", "]", "...", "++", "--", "+=", "/", "/=", "break", "continue", "debugger", "if(a){}", "else{}", "try{}catch(e){}", "try{}finally{}", "switch(a){}", "a:", "export default",
            "x=async function(){}", "async x=>{}", "x=async x=>{}", "new.target", "new a", "new a()", "import 'm'", "export{}", "export * from 'm'", "var a", "let a", "var a=1", "do;while(a)", "target", "from", "as", "constructor",
            "x={a}", "x={a(){}}", "`${a", "`${{}}`", "`${function(){}}`", "`${a}b${c}`", "f`t`", "-1", "a?b:c", "a,b", "a=b", "[]", "{a}", "x={get a(){}}",
        ];
        let after = ["/a/g", "/ a / g", "/a/", "/=a/g", "/(/)/", "/[/]/", "/a/.b", "/b", "/ 2", "/=2", "/'/", "/`/", "}", "}`", "}b`", "/a/i/b/g", "//c\n/a/g", "/*c*//a/g", "\n/a/g", "\n/a/ 1", "/a/\n(b)", ")/a/g", "]/a/g"];
        let a = before[r.below(before.len())];
        let b = after[r.below(after.len())];
        let (open, close) = r.choose(&[
            ("", ""), ("{", "}"), ("(", ")"), ("[", "]"), ("x=", ""), ("f(", ")"), ("`${", "}`"), ("function f(){", "}"), ("function*f(){", "}"), ("async function f(){", "}"), ("if(x){}else{", "}"),
            ("x=>{", "}"), ("class A{m(){", "}}"), ("x={m(){", "}}"), ("switch(x){case ", ":}"), ("for(", ";;);"), ("for(;;){", "}"), ("while(", ");"), ("do ", ";while(x)"), ("a?", ":c"), ("a?b:", ""), ("`a${b}c${", "}d`"), ("x={[", "]:1}"), ("x={a:", "}"), ("class A{static m(a=", "){}}"),
        ]);
        let gap = r.pick(&["", " ", " ", "\n", "/*c*/", " //c\n"]);
        let c = r.pick(&["", ";", "\n", " a", ";/a/g", "\n/a/g", "/a", "+/a/"]);
        return format!("{}{}{}{}{}{}", open, a, gap, b, c, close);
    }
    let mut p = work::program(r, 20);
    // Put in slashes where they may or may not be allowed.
    for _ in 0..r.range(1, 3) {
        let i = r.below(p.len() + 1);
        let t = match r.below(5) {
            0 => gen::regex(r, true),
            1 => "/".to_string(),
            2 => "/=".to_string(),
            3 => "/a/g".to_string(),
            _ => format!("`{}${{x}}{}`", gen::template_chars(r, false), gen::template_chars(r, false)),
        };
        p.insert(i, G::T(t));
    }
    let st = gen::Style::random(r);
    gen::render(r, &p, st)
}

pub struct C11;
impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "Random programs rich in regular expressions, divisions and templates, slashes of every kind after and inside every kind of construct, and slashes put into programs at random; every text one token away (removed, doubled, cut off, swapped, replaced or preceded by any of 74) from any of 580 phrases that between them use every production, by itself and in 16 kinds of bodies (quick: a quarter of those); every two phrases one after the other on two lines without a semicolon. An independent recogniser lexes valid ones on demand under the goal the grammar demands; the sequence of tokens the real parser draws from the real tokenizer, recorded between the two, must be that sequence. Non-trivial: the text is valid and has a token starting with `/` or `}`."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 12_000_000 } else { 1_500_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        phrases::texts(t.thorough) + phrases::pairs(if t.thorough { 6 } else { 1 })
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let n = phrases::texts(t.thorough);
        Case::new("enumerated", &if i < n { phrases::text(i, t.thorough) } else { phrases::pair(i - n).0 })
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        Case::new("random", &slashy(r))
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let want = refparse::classify(text);
        let run = mon::run(text);
        verdict_hit(o, want.class, &run.verdict);
        match want.class {
            Class::Valid => {}
            Class::Early if run.verdict.accepted() => {}
            _ => return Ok(()),
        }
        let n = same_tokens(text, &run, &want, o)?;
        o.add("tokens compared", want.toks.len() as u64);
        if n > 0 {
            o.nontrivial = true;
            o.sample("program", text);
        }
        Ok(())
    }
}

// ---- C12

pub struct C12;

const STRAY: [&str; 26] = [
    ")", "]", "}", ":", ",", ".", "=>", "=", "case", "else", "catch(e){}", "finally{}", "in", "*", "default:", "extends", "@", "'", "`${", "?", "&&", ")a(", "}{", "of of of", "%", "/*",
];

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "Random texts (valid, damaged, hostile), and every text one token away (removed, doubled, cut off, swapped, replaced or preceded by any of 74) from any of 580 phrases that between them use every production, by itself and in 16 kinds of bodies (quick: a quarter of those); parsed by the real parser through a recording token source. Accepted ones must have been read to the end of input, every token once, in order, and must be rejected once a stray token is appended. Rejected ones are parsed again with everything the parser had not read replaced in several ways (among them what would close or complete the text), must be rejected again after the same requests, and, where an independent recogniser finds the text outside the grammar, must not have been read further than one token past the first error. Non-trivial: at least three tokens had been read."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 5_000_000 } else { 480_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        phrases::texts(t.thorough)
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        Case::with("enumerated", vec![phrases::text(i, t.thorough)], vec![i])
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let t = match r.below(8) {
            0 | 1 => valid_text(r),
            2 | 3 | 4 => invalid_text(r),
            5 => {
                // valid, then something else
                format!("{}{}{}{}{}", work::source(r, 20), r.pick(&[" ", "\n", ";\n"]), r.pick(&STRAY), r.pick(&[" ", "\n", ""]), work::source(r, 10))
            }
            _ => work::any(r, 40).1,
        };
        Case::with("random", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let mut r = Rng::new(c.nums[0]);
        let run = mon::run(text);
        one_pass(text, &run)?;
        o.nontrivial = run.ev.len() >= 3;
        match &run.verdict {
            Verdict::Accept => {
                o.hit("accepted");
                match run.ev.last() {
                    Some(ev) if mon::kind_name(&ev.tok) == "end of input" => {
                        // Whatever may be left is white space.
                        if ev.range.end.offset > text.len() || !text.is_char_boundary(ev.range.end.offset) || !text[ev.range.end.offset..].chars().all(reflex::is_ws) {
                            return Err(format!("accepted with the end of input at byte {} of {}", ev.range.end.offset, text.len()));
                        }
                    }
                    _ => {
                        return Err(format!(
                            "accepted although the end of input had not been read (only {} of {} bytes)",
                            run.read_to(),
                            text.len()
                        ))
                    }
                }
                for _ in 0..3 {
                    let stray = STRAY[r.below(STRAY.len())];
                    let t2 = format!("{}{}{}", text, r.pick(&["\n", "\n;\n", " \n", "\n\n"]), stray);
                    if refparse::classify(&t2).class != Class::Invalid {
                        continue;
                    }
                    o.hit("stray tokens appended");
                    let run2 = mon::run(&t2);
                    if run2.verdict.accepted() {
                        return Err(format!("still accepted with {:?} appended: {:?}", stray, mon::clip(&t2, 300)));
                    }
                }
                o.sample("accepted", text);
            }
            Verdict::Reject { lexer } => {
                o.hit(if *lexer { "rejected by the tokenizer" } else { "rejected by the parser" });
                let want = refparse::classify(text);
                if want.class == Class::Invalid && !want.late {
                    // No derivation survives the token at `far`; reading may go a little past it.
                    let beyond = run.ev.iter().filter(|e| !e.trivia() && e.range.start.offset > want.far).count();
                    o.max("tokens read past the first error", beyond as u64);
                    o.hit("first errors compared");
                    if beyond > 1 {
                        return Err(format!(
                            "{} tokens were read past the first error (at byte {}) before the text was rejected: {:?}",
                            beyond,
                            want.far,
                            mon::clip(text, 300)
                        ));
                    }
                }
                if !*lexer {
                    let e = run.read_to();
                    if e <= text.len() && text.is_char_boundary(e) && run.ev.last().map_or(false, |x| mon::kind_name(&x.tok) != "end of input") {
                        for k in 0..4 {
                            let gap = r.pick(&[" ", "\n"]);
                            let other = match k {
                                0 => String::new(),
                                1 => closers(text, e),
                                2 => work::source(&mut r, 8),
                                _ => gen::soup(&mut r, 20),
                            };
                            let t2 = format!("{}{}{}", &text[..e], gap, other);
                            let run2 = mon::run(&t2);
                            o.hit("texts with the unread part replaced");
                            if run2.verdict.accepted() {
                                return Err(format!(
                                    "rejected after reading {:?}, but accepted when what follows is replaced by {:?}",
                                    mon::clip(&text[..e], 300),
                                    mon::clip(&other, 100)
                                ));
                            }
                            if run2.requests != run.requests {
                                return Err(format!(
                                    "rejected after {} requests, but after {} when what had not been read is replaced by {:?}: {:?}",
                                    run.requests,
                                    run2.requests,
                                    mon::clip(&other, 100),
                                    mon::clip(&text[..e], 300)
                                ));
                            }
                        }
                        o.sample("rejected", text);
                    }
                }
            }
            _ => {}
        }
        Ok(())
    }
}
/// What would close the brackets open in a text.
fn closers(text: &str, e: usize) -> String {
    let mut open = vec![];
    for c in text[..e].chars() {
        match c {
            '(' => open.push(')'),
            '[' => open.push(']'),
            '{' => open.push('}'),
            ')' | ']' | '}' => {
                open.pop();
            }
            _ => {}
        }
    }
    open.iter().rev().collect()
}
/// Each token once, in order.
fn one_pass(text: &str, run: &Run) -> Result<(), String> {
    let mut from = 0;
    let mut eof = false;
    for ev in &run.ev {
        let (s, e) = (ev.range.start.offset, ev.range.end.offset);
        if eof {
            return Err(format!("{} was asked for after the end of input", mon::describe(&ev.tok)));
        }
        if s < from {
            return Err(format!("{} at {}..{} was read again or out of order, having read up to {}: {:?}", mon::describe(&ev.tok), s, e, from, mon::clip(text, 200)));
        }
        from = e;
        eof = mon::kind_name(&ev.tok) == "end of input";
    }
    Ok(())
}

// ---- C13

pub struct C13;

/// The tokens of a program with explicit semicolons, and what stands in each gap: 0 nothing special, 1 no line break allowed.
impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "Random programs rich in statements that need semicolons and in restricted productions, written with all semicolons on one line, and then with semicolons removed and line breaks (or comments containing or ending in one) put in or taken out at one to four random places, next to semicolons and restricted tokens by preference; every two of 580 phrases that between them use every production one after the other with 3 (thorough: 6) kinds of gap in place of the semicolon, and every phrase with a line break of 8 kinds in every gap (thorough: also in 16 kinds of bodies). The verdicts on original and variant are compared with an independent recogniser; a variant counts when the real parser agrees on the original. Non-trivial: the variant's verdict was judged and differs from the original's or a semicolon was left out."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 6_000_000 } else { 660_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        (phrases::pairs(if t.thorough { 6 } else { 3 }) + phrases::breaks()) * if t.thorough { 4 } else { 1 }
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let (p, b) = (phrases::pairs(if t.thorough { 6 } else { 3 }), phrases::breaks());
        let (k, i) = (i / (p + b), i % (p + b));
        let (v, base) = if i < b { phrases::broken(i) } else { phrases::pair(i - b) };
        // as they are, and in some bodies
        let k = if k == 0 { 0 } else { 1 + (i as usize + k as usize) % OUTER.len() };
        Case::with("enumerated", vec![phrases::in_context(&v, k), phrases::in_context(&base, k)], vec![])
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let mut o = gen::Opts::plain();
        o.restricted = 35;
        o.functions = 15;
        o.modules = 12;
        if r.one_in(3) {
            o = gen::Opts::random(r);
        }
        let size = r.range(2, 30) as isize;
        let p = if r.one_in(5) {
            let c = work::corpus();
            tokens_of(&c[r.below(c.len())])
        } else {
            gen::program(r, o, size)
        };
        // token, with a gap before it: ' ', or a line break
        let mut toks: Vec<String> = vec![];
        for g in &p {
            match g {
                G::T(s) | G::N(s) => toks.push(s.clone()),
                G::Semi => toks.push(";".into()),
            }
        }
        let mut gaps: Vec<String> = toks.iter().map(|_| " ".to_string()).collect();
        let base = join(&toks, &gaps);
        let spots: Vec<usize> = (0..toks.len())
            .filter(|&i| {
                toks[i] == ";"
                    || i > 0 && matches!(&toks[i - 1][..], "return" | "throw" | "break" | "continue" | "yield" | "async" | ";" | ")" | "}" | "while")
                    || matches!(&toks[i][..], "++" | "--" | "=>" | "}" | "(" | "[" | "`" | "+" | "-" | "function" | "in" | "of" | "while" | "else" | "catch" | "*")
            })
            .collect();
        for _ in 0..r.range(1, 4) {
            if toks.is_empty() {
                break;
            }
            let mut i = if !spots.is_empty() && !r.one_in(4) { spots[r.below(spots.len())] } else { r.below(toks.len()) };
            if i >= toks.len() {
                i = toks.len() - 1;
            }
            let brk = |r: &mut Rng| {
                if r.one_in(40) {
                    return gen::many(r, true);
                }
                r.pick(&["\n", "\n", "\r\n", "\u{2028}", "//c\n", "/*\n*/", "/*a*/\n", "\n/*b*/", " \u{2029} "]).to_string()
            };
            if toks[i] == ";" && !r.one_in(4) {
                // leave it out
                toks.remove(i);
                gaps.remove(i);
                if i < gaps.len() {
                    gaps[i] = match r.below(4) {
                        0 => " ".into(),
                        1 if r.one_in(20) => gen::many(r, false),
                        1 => "/*x*/ ".into(),
                        _ => brk(r),
                    };
                }
            } else {
                gaps[i] = brk(r);
            }
        }
        let mut v = join(&toks, &gaps);
        if r.one_in(6) {
            v.push_str(r.pick(&["\n", " ", "//c", "/**/"]));
        }
        Case::with("variant", vec![v, base], vec![])
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let (text, base) = (&c.texts[0], &c.texts[1]);
        let bw = refparse::classify(base);
        let br = mon::run(base);
        let agreed = match bw.class {
            Class::Valid => br.verdict.accepted(),
            Class::Invalid => br.verdict.rejected(),
            _ => false,
        };
        if !agreed {
            o.hit("originals without an agreed verdict");
            return Ok(());
        }
        let want = refparse::classify(text);
        let run = mon::run(text);
        verdict_hit(o, want.class, &run.verdict);
        let wrong = match want.class {
            Class::Valid => !run.verdict.accepted(),
            Class::Invalid => run.verdict.accepted(),
            _ => return Ok(()),
        };
        if want.class != bw.class || want.toks.len() != bw.toks.len() {
            o.nontrivial = true;
            o.sample("variant", text);
        }
        if wrong {
            return Err(format!(
                "{} should be {} (its original {:?} is {}): it was {}",
                format!("{:?}", mon::clip(text, 300)),
                if want.class == Class::Valid { "accepted" } else { "rejected" },
                mon::clip(base, 300),
                if bw.class == Class::Valid { "accepted" } else { "rejected" },
                run.verdict.name()
            ));
        }
        Ok(())
    }
}
fn join(toks: &[String], gaps: &[String]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            s.push_str(&gaps[i]);
        }
        s.push_str(t);
    }
    s
}

// ---- C14

pub struct C14;

/// Tokens with the gaps between them, and the rest that was not read as tokens.
struct Pieces {
    toks: Vec<String>,
    kinds: Vec<&'static str>,
    /// before each token: the trivia, and whether it holds a line break
    gaps: Vec<(String, bool)>,
    rest: String,
}
fn pieces(text: &str, run: &Run) -> Option<Pieces> {
    let mut p = Pieces { toks: vec![], kinds: vec![], gaps: vec![], rest: String::new() };
    let mut from = 0;
    let mut nl = false;
    for ev in &run.ev {
        let (s, e) = (ev.range.start.offset, ev.range.end.offset);
        if s < from || e < s || e > text.len() || !text.is_char_boundary(s) || !text.is_char_boundary(e) {
            return None;
        }
        if ev.trivia() {
            let t = &text[s..e];
            // A line comment's line break is a token of its own.
            nl |= t.contains(&reflex::LTS[..]);
            continue;
        }
        p.gaps.push((text[from..s].to_string(), nl));
        p.toks.push(text[s..e].to_string());
        p.kinds.push(mon::kind_name(&ev.tok));
        nl = false;
        from = e;
    }
    p.rest = text[from..].to_string();
    Some(p)
}
fn other_gap(r: &mut Rng, gap: &(String, bool), prev: &str, next: &str) -> String {
    let odd = r.choose(&[0, 30, 100]);
    let mut g = if gap.1 {
        match r.below(3) {
            0 => gap.0.clone(),
            _ if r.one_in(300) => gen::many(r, true),
            _ => gen::line(r, odd),
        }
    } else {
        match r.below(4) {
            0 => gap.0.clone(),
            1 if prev.is_empty() || next.is_empty() || !gen::needs_gap(prev, next) => String::new(),
            _ if r.one_in(1000) => gen::many(r, false),
            _ => gen::space(r, odd),
        }
    };
    if !gap.0.is_empty() && g.is_empty() && !prev.is_empty() && !next.is_empty() && gen::needs_gap(prev, next) {
        g.push(' ');
    }
    if g.starts_with('/') && prev.ends_with('/') {
        g.insert(0, ' ');
    }
    g
}
impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "Random texts parsed by the real parser, and 580 phrases that between them use every production with every gap in 38 ways; the tokens it was given are then written again with other white space, comments and line terminators in every gap, keeping for each gap whether it holds a line break and never joining tokens, and parsed again: verdict and tokens (kind and spelling) must be the same. For rejected texts the unread rest is kept. Non-trivial: at least three tokens and a changed text."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 8_000_000 } else { 750_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        phrases::gaps() * if t.thorough { 17 } else { 1 }
    }
    fn nth(&self, i: u64, _t: &Tier) -> Case {
        let (base, v) = phrases::respaced(i % phrases::gaps());
        let k = (i / phrases::gaps()) as usize;
        Case::with("enumerated", vec![phrases::in_context(&v, k), phrases::in_context(&base, k)], vec![])
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let t = match r.below(6) {
            0 => work::from_corpus(r),
            1 => work::any(r, 40).1,
            2 => invalid_text(r),
            _ => work::source(r, 50),
        };
        let mut v = String::new();
        let run = mon::run(&t);
        if run.verdict.accepted() || (run.verdict == Verdict::Reject { lexer: false }) {
            if let Some(p) = pieces(&t, &run) {
                let mut prev = "";
                let n = p.toks.len();
                for i in 0..n {
                    let eof = p.kinds[i] == "end of input";
                    let g = if eof && p.gaps[i].1 == false && r.one_in(6) {
                        " // the end".to_string()
                    } else {
                        other_gap(r, &p.gaps[i], prev, &p.toks[i])
                    };
                    v.push_str(&g);
                    v.push_str(&p.toks[i]);
                    prev = &p.toks[i];
                }
                v.push_str(&p.rest);
                // The last token read must not run into the rest in a new way.
                return Case::with("respelled", vec![v, t], vec![]);
            }
        }
        Case::with("none", vec![t], vec![])
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        if c.texts.len() < 2 {
            o.hit("texts the tokenizer refused");
            return Ok(());
        }
        let (v, t) = (&c.texts[0], &c.texts[1]);
        let a = mon::run(t);
        let b = mon::run(v);
        o.hit(short(&a.verdict));
        if matches!(a.verdict, Verdict::Fault(_) | Verdict::Budget) {
            return Ok(());
        }
        if c.kind == "enumerated" && a.verdict == (Verdict::Reject { lexer: true }) {
            // With a line break before it, what was a division may have become the start of a regular expression, and the gaps after it are part of that.
            o.hit("texts the tokenizer refused");
            return Ok(());
        }
        let spell = |text: &str, run: &Run| -> Vec<(String, &'static str)> {
            run.significant()
                .map(|e: &Ev| {
                    let s = text.get(e.range.start.offset..e.range.end.offset).unwrap_or("?").to_string();
                    (s, mon::kind_name(&e.tok))
                })
                .collect()
        };
        let (sa, sb) = (spell(t, &a), spell(v, &b));
        o.add("tokens compared", sa.len() as u64);
        if sa.len() >= 3 && v != t {
            o.nontrivial = true;
            o.sample("respelled", v);
        }
        if a.verdict.accepted() != b.verdict.accepted() {
            return Err(format!("{:?} was {}, but with other white space and comments, {:?} was {}", mon::clip(t, 300), a.verdict.name(), mon::clip(v, 300), b.verdict.name()));
        }
        if sa != sb {
            let i = sa.iter().zip(sb.iter()).position(|(x, y)| x != y).unwrap_or(sa.len().min(sb.len()));
            return Err(format!(
                "token {} of {:?} is {:?}, but with other white space and comments, in {:?}, it is {:?}",
                i,
                mon::clip(t, 300),
                sa.get(i),
                mon::clip(v, 300),
                sb.get(i)
            ));
        }
        Ok(())
    }
}

// ---- C15

pub struct C15;

/// Constructs with a hole for an expression.
pub const EXPR_CTX: [&str; 80] = [
    "§", "(§)", "[§]", "[...§]", "f(§)", "f(...§)", "a[§]", "`${§}`", "({a:§})", "({[§]:1})", "a?§:b", "a?b:§", "a=§", "a+=§", "a,§", "!(§)", "a+(§)", "x=>(§)", "(x=(§))=>x", "async x=>(§)",
    "async (x)=>(§)", "async (x=(§))=>x",
    "(function(){return §})", "(function*(){return §})", "(async function(){return §})", "(function(){§})", "(function*(){§})", "(async function(){§})", "(function(a=§){})", "(function*(a=§){})",
    "(function([a=§]){})", "(function*({a=§}){})", "(async function(a=§){})", "({m(){return §}})", "({*m(){return §}})", "({async m(){return §}})", "({get m(){return §}})", "({set m(a){§}})", "({m(a=§){}})",
    "({*m(a=§){}})", "({async m(a=§){}})", "({*[§](){}})", "({async [§](){}})", "({get [§](){}})", "(class{m(){§}})", "(class{*m(){§}})", "(class{async m(){§}})", "(class{static *m(){§}})",
    "(class{[§](){}})", "(class extends (§){})", "(class{*[§](){}})", "(class{m(a=§){}})", "x=>{§}", "async x=>{§}", "async (x)=>{§}", "(x)=>{return §}", "new a(§)", "new (§)", "a`${§}`", "typeof (§)", "delete (§)",
    "(function(){for(§;;);})",
    // the same without parentheses around
    "x={m(){§}}", "x={*m(){§}}", "x={async m(){§}}", "x={get m(){§}}", "x={m(a=§){}}", "x={a:§}", "x={[§]:1}", "x={[§](){}}", "x=class{m(){§}}", "x=class{*m(){§}}", "x=class{static async m(){§}}", "x=class extends a{[§](){}}",
    "x=function(){§}", "x=function*(){§}", "x=async function(){§}", "x=function(a=§){}", "x=async(a=§)=>b", "x=[a,§]",
];
/// Statement-level constructs with a hole for an expression.
pub const STMT_CTX: [&str; 46] = [
    "§;", "if(§);", "while(§);", "do;while(§)", "for(§;;);", "for(;§;);", "for(;;§);", "for(a of §);", "for(a in §);", "for(var a=§;;);", "for(let a=§;;);", "for(const a=§;;);", "for(let a=1,b=§;;);",
    "for(var [a]=§;;);", "for(var {a}=§;;);", "for(var a of §);", "for(let a in §);", "for(let [a=§] of b);", "for(let {[§]:a} of b);", "for(let {a=§}=b;;);", "for(var {a:b=§} in c);", "switch(§){}", "switch(a){case §:}", "throw §;",
    "var a=§;", "let a=§;", "const a=§;", "var [a=§]=b;", "var {[§]:a}=b;", "export default §;", "export var a=§;", "export const a=§;", "function f(){§}", "function* f(){§}", "async function f(){§}", "function* f(a=§){}",
    "async function f(a=§){}", "class A{*m(){§}}", "class A{async m(){§}}", "class A extends (§){}", "export default function*(){§}", "export default async function(){§}", "export default class{*m(){§}}", "{§}",
    "label:§", "try{§}catch(e){}",
];
/// What goes into the hole.
pub const PROBES: [&str; 40] = [
    "yield", "yield a", "yield* a", "yield\na", "yield/a/g", "yield in a", "await a", "await", "await a in b", "await/a/g", "a in b", "a in b in c", "(a in b)", "[a in b]", "a?b in c:d", "a?b:c in d", "x=>a in b",
    "x=>{a in b}", "f(a in b)", "`${a in b}`", "a[b in c]", "{a:b in c}", "function(){a in b}", "yield=1", "await=1", "yield.a", "async x=>await x", "async x=>{await x}", "function*(){yield}", "async function(){await a}",
    "function(){yield a}", "function(){await a}", "function*(){function g(){yield a}}", "class{*m(){yield}}", "class{}", "function(){}", "yield yield a", "await await a", "x=>yield", "x=>await a",
];
/// Statement probes, for holes that take statements.
const AFTER: [&str; 12] = ["", "yield", "yield a", "await a", "for(a in b);", "for(var x=a in b;;);", "x=a in b", "function(){}", "class{}", "function*(){}", "export default function(){}", "yield:a"];

/// Constructs with a hole for statements, that set or clear what the probes are about.
pub const OUTER: [&str; 16] = [
    "function* g(){§}", "async function g(){§}", "class B{*m(){§}}", "class B{async m(){§}}", "x={*m(){§}}", "x={async m(){§}}", "x=function*(){§}", "x=async function(){§}", "x=async y=>{§}", "x=`${function*(){§}}`",
    "x=`${async y=>{§}}`", "for(x=function*(){§};;);", "for(let x=async()=>{§};;);", "export default function*(){§}", "export default async function(){§}", "function* g(){switch(a){case 1:§}}",
];
impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "Every one of 46 statement constructs around every one of 80 expression constructs around every one of 40 probes (`yield`, `await` and `in` expressions, anonymous functions and classes), within every one of 16 generators, async functions and the like, and followed by other probes (thorough: also within every second expression construct); and random stacks of up to four constructs with other probes before, inside and after. Compared with an independent recogniser. Non-trivial: the verdict was judged."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 6_000_000 } else { 600_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        let two = STMT_CTX.len() * EXPR_CTX.len() * PROBES.len();
        (two * OUTER.len() + if t.thorough { two * EXPR_CTX.len() + two * AFTER.len() } else { two + STMT_CTX.len() * PROBES.len() * AFTER.len() }) as u64
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let mut i = i as usize;
        let two = STMT_CTX.len() * EXPR_CTX.len() * PROBES.len();
        let inner = |i: usize| (STMT_CTX[i % STMT_CTX.len()], EXPR_CTX[i / STMT_CTX.len() % EXPR_CTX.len()], PROBES[i / STMT_CTX.len() / EXPR_CTX.len() % PROBES.len()]);
        if i < two * OUTER.len() {
            let (s, e, p) = inner(i);
            return Case::new("enumerated", &OUTER[i / two].replace('§', &s.replace('§', &e.replace('§', p))));
        }
        i -= two * OUTER.len();
        if t.thorough {
            if i < two * EXPR_CTX.len() {
                let (s, e, p) = inner(i);
                return Case::new("enumerated", &s.replace('§', &EXPR_CTX[i / two].replace('§', &e.replace('§', p))));
            }
            i -= two * EXPR_CTX.len();
        }
        let (s, e, p, a) = (
            i % STMT_CTX.len(),
            i / STMT_CTX.len() % EXPR_CTX.len(),
            i / (STMT_CTX.len() * EXPR_CTX.len()) % PROBES.len(),
            i / (STMT_CTX.len() * EXPR_CTX.len() * PROBES.len()),
        );
        let a = (a + s + p) % AFTER.len() * (a != 0) as usize;
        let inner = EXPR_CTX[e].replace('§', PROBES[p]);
        Case::new("enumerated", &format!("{}\n{}", STMT_CTX[s].replace('§', &inner), AFTER[a]))
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        if r.one_in(60) {
            return Case::new("deep", &work::deep(r));
        }
        let mut t = if r.one_in(4) {
            let mut g = gen::Gen::new(r, gen::Opts::plain(), 6);
            g.assign();
            let p = g.out;
            let st = gen::Style::plain();
            gen::render(r, &p, st)
        } else {
            PROBES[r.below(PROBES.len())].to_string()
        };
        for _ in 0..r.range(1, 3) {
            let c = EXPR_CTX[r.below(EXPR_CTX.len())];
            t = c.replace('§', &t);
            if r.one_in(5) {
                let q = PROBES[r.below(PROBES.len())];
                t = match r.below(4) {
                    0 => format!("{},{}", t, q),
                    1 => format!("{},{}", q, t),
                    2 => format!("{} in {}", t, q),
                    _ => format!("{}+{}", t, q),
                };
            }
        }
        t = STMT_CTX[r.below(STMT_CTX.len())].replace('§', &t);
        if r.one_in(3) {
            let w = r.choose(&["function* g(){§}", "async function g(){§}", "function g(){§}", "class B{*m(){§}}", "class B{async m(){§}}", "x={*m(){§}}", "x={async m(){§}}", "if(a){§}else{}", "switch(a){case 1:§}", "x=function*(){§}", "x=async y=>{§}"]);
            t = w.replace('§', &t);
        }
        if r.one_in(2) {
            t = format!("{}\n{}", t, AFTER[r.below(AFTER.len())]);
        }
        if r.one_in(4) {
            t = format!("{}\n{}", AFTER[r.below(AFTER.len())], t);
        }
        Case::new("random", &t)
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let want = refparse::classify(text);
        let run = mon::run(text);
        verdict_hit(o, want.class, &run.verdict);
        match want.class {
            Class::Valid => {
                o.nontrivial = true;
                o.sample("valid", text);
                if !run.verdict.accepted() {
                    return Err(format!("valid, but {}: {:?}", run.verdict.name(), mon::clip(text, 300)));
                }
            }
            Class::Invalid => {
                o.nontrivial = true;
                o.sample("outside the grammar", text);
                if run.verdict.accepted() {
                    return Err(format!("outside the grammar (no derivation past byte {}), but accepted: {:?}", want.far, mon::clip(text, 300)));
                }
            }
            _ => {}
        }
        Ok(())
    }
}

// ---- C16

pub struct C16;

const STMT_WRAP: [&str; 26] = [
    "{\n§\n}", "{{\n§\n}}", "function f(){\n§\n}", "function* f(){\n§\n}", "x=function(){\n§\n}", "x={m(){\n§\n}}", "x={get m(){\n§\n}}", "x={set m(a){\n§\n}}", "x={*m(){\n§\n}}", "class A{m(){\n§\n}}", "class A{static m(){\n§\n}}",
    "class A{constructor(){\n§\n}}", "x=a=>{\n§\n}", "x=(a,b)=>{\n§\n}", "x=()=>{\n§\n}", "if(a){\n§\n}", "if(a);else{\n§\n}", "while(a){\n§\n}", "do{\n§\n}while(a)", "for(;;){\n§\n}", "for(a of b){\n§\n}", "for(var a in b){\n§\n}",
    "switch(a){case 1:\n§\n}", "switch(a){default:\n§\n}", "try{\n§\n}catch(e){\n§\n}finally{\n§\n}", "l:{\n§\n}",
];
/// Async bodies take what has no `await` to misread; top-level texts have none.
const STMT_WRAP2: [&str; 4] = ["async function f(){\n§\n}", "x=async a=>{\n§\n}", "x={async m(){\n§\n}}", "class A{async m(){\n§\n}}"];
const WRAPS: u64 = (STMT_WRAP.len() + STMT_WRAP2.len()) as u64;
const EXPR_WRAP: [&str; 44] = [
    "(§\n)", "x=(§\n)", "[§\n]", "[a,§\n,b]", "f(§\n)", "f(a,§\n)", "f(...§\n)", "[...§\n]", "x={a:§\n}", "x={'a':§\n,b}", "x={[§\n]:1}", "x={[§\n](){}}", "x={get [§\n](){}}", "`${§\n}`", "`a${b}c${§\n}d`", "t`${§\n}`", "var v=§\n", "let v=§\n",
    "const v=§\n", "const [v]=§\n", "let a,v=§\n", "a[§\n]", "a.b[§\n].c", "a,§\n", "x?§\n:y", "x?y:§\n", "x=>(§\n)", "function f(a=§\n){}", "x=function([a=§\n]){}", "var {a=§\n}=b", "var {[§\n]:a}=b", "class A{[§\n](){}}", "class A extends (§\n){}", "throw §\n",
    "if(§\n);", "while(§\n);", "do;while(§\n)", "for(;§\n;);", "for(;;§\n);", "for(x of §\n);", "for(x in §\n);", "switch(§\n){}", "switch(a){case §\n:}", "x=y=§\n",
];

/// Expressions with a bracketed place in them, also as a target of assignment.
const BRACKETS: [&str; 26] = [
    "a[§\n]", "a[§\n].b", "a.b[§\n]", "f(§\n)", "f(§\n).b", "f(...§\n)", "new a(§\n)", "new a[§\n]", "(§\n)", "(§\n).a", "[§\n]", "[...§\n]", "{a:§\n}.b", "{[§\n]:1}.b", "{[§\n](){}}.b", "{m(a=§\n){}}.b", "`${§\n}`",
    "t`${§\n}`", "function(){return(§\n)}", "function(a=§\n){}", "class{[§\n](){}}", "class extends(§\n){}", "f(a)[§\n](b)", "a?.5:[§\n]", "a?b[§\n]:c", "async(§\n)",
];
/// Expressions around those.
const MIDDLES: [&str; 14] = ["-§", "(§,c)", "(c,§)", "[c=§]", "c?§:d", "c+§*2", "(§)", "[§]", "typeof §", "f(§)", "§.c", "§[c]", "[§,c]", "c||§"];
/// Statements around those, most of them with rules of their own about expressions.
const OUTERS: [&str; 21] = [
    "for(x=§;;);", "for(x=§,y;;);", "for(;§;);", "for(;;§);", "for(var v=§;;);", "for(let v=§,w=1;;);", "for(const v=§;;);", "for(var[v]=§;;);", "for(var v,w=§;;);", "for((§).x in a);", "for((§).x of a);",
    "for(x of §\n);", "for(x in §\n);", "for(f(§).y in a);", "for([f(§).y]of a);", "x=>(§)", "x=y=>[§]", "x=(a=§)=>a",  "throw 1+§", "if(1+§);else;", "export default 1+§",
];

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "Pairs of random texts (valid, damaged), of phrases from a book of 580 that between them use every production, and of such phrases with texts one token away from them: accepted ones are concatenated and must be accepted, and a text the parser rejects must be rejected after an accepted one; accepted random statement lists inside 30 kinds of bodies, up to three deep, and up to 300 deep, and every phrase inside every two of these; accepted random expressions inside 44 kinds of places, and inside 26 kinds of brackets within 14 kinds of expressions within 21 kinds of statements, and up to 300 deep. Only verdicts of the real parser are compared with one another. Non-trivial: a composition of texts with at least three tokens each was judged."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 5_000_000 } else { 480_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        let n = phrases::all().len() as u64;
        n * WRAPS * WRAPS + n * n + phrases::neighbours() / if t.thorough { 1 } else { 4 }
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let all = phrases::all();
        let n = all.len() as u64;
        if i < n * WRAPS * WRAPS {
            return Case::with("phrase", vec![all[(i % n) as usize].text.into()], vec![i / n % WRAPS, i / n / WRAPS]);
        }
        let i = i - n * WRAPS * WRAPS;
        if i < n * n {
            return Case::with("pair", vec![all[(i % n) as usize].text.into(), all[(i / n) as usize].text.into()], vec![i]);
        }
        let i = (i - n * n) * if t.thorough { 1 } else { 4 } + i % if t.thorough { 1 } else { 4 };
        Case::with("pair", vec![all[(i / 7 % n) as usize].text.into(), phrases::neighbour(i % phrases::neighbours(), i % 2 == 0)], vec![i])
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        let n = r.next() >> 16;
        match i % 3 {
            0 => {
                let a = if r.one_in(4) { work::from_corpus(r) } else { work::source(r, 25) };
                let b = match r.below(4) {
                    0 => work::from_corpus(r),
                    1 => invalid_text(r),
                    _ => work::source(r, 25),
                };
                Case::with("pair", vec![a, b], vec![n])
            }
            1 => {
                let t = if r.one_in(4) {
                    work::from_corpus(r)
                } else {
                    let mut o = gen::Opts::random(r);
                    o.modules = 0;
                    let size = r.range(2, 40) as isize;
                    let p = gen::program(r, o, size);
                    let st = gen::Style::random(r);
                    gen::render(r, &p, st)
                };
                Case::with("statements", vec![t], vec![n])
            }
            _ => {
                let o = gen::Opts::random(r);
                let size = r.range(1, 30) as isize;
                let p = {
                    let mut g = gen::Gen::new(r, o, size);
                    g.assign();
                    g.out
                };
                let st = gen::Style::random(r);
                let t = gen::render(r, &p, st);
                Case::with("expression", vec![t], vec![n])
            }
        }
    }
    fn shrinks(&self, c: &Case) -> bool {
        c.kind != "pair" && c.kind != "phrase"
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let mut r = Rng::new(c.nums[0]);
        match &c.kind[..] {
            "pair" => {
                let (a, b) = (&c.texts[0], &c.texts[1]);
                let (ra, rb) = (mon::run(a), mon::run(b));
                o.nontrivial = ra.ev.len() >= 3 && rb.ev.len() >= 3;
                let sep = r.pick(&["\n;\n", "\n;", "\n;\n\n", "\n\u{2028};/*x*/"]);
                if ra.verdict.accepted() {
                    let ab = format!("{}{}{}", a, sep, b);
                    let rab = mon::run(&ab);
                    if rb.verdict.accepted() {
                        o.hit("accepted with accepted");
                        o.sample("both", &ab);
                        if !rab.verdict.accepted() {
                            return Err(format!("{:?} and {:?} are accepted, but one after the other they are {}", mon::clip(a, 200), mon::clip(b, 200), rab.verdict.name()));
                        }
                        let ba = format!("{}{}{}", b, sep, a);
                        let bar = mon::run(&ba);
                        if !bar.verdict.accepted() {
                            return Err(format!("{:?} and {:?} are accepted, but one after the other they are {}", mon::clip(b, 200), mon::clip(a, 200), bar.verdict.name()));
                        }
                    } else if rb.significant().next().map_or(false, |e| b.get(e.range.start.offset..e.range.end.offset) == Some("else")) {
                        // `if (a) b` `;` `else c` is a program though `else c` is none
                        o.hit("accepted with an else");
                    } else if rb.verdict.rejected() {
                        o.hit("accepted with rejected");
                        if rab.verdict.accepted() {
                            return Err(format!("{:?} is {}, but accepted after {:?}", mon::clip(b, 200), rb.verdict.name(), mon::clip(a, 200)));
                        }
                    }
                }
            }
            "phrase" => {
                let t = c.text();
                let run = mon::run(t);
                let module = run.significant().any(|e| matches!(t.get(e.range.start.offset..e.range.end.offset), Some("import") | Some("export")));
                if !run.verdict.accepted() || module {
                    o.hit("statement lists rejected or with module items");
                    return Ok(());
                }
                o.nontrivial = run.ev.len() >= 3;
                let wrap = |k: u64| STMT_WRAP.iter().chain(STMT_WRAP2.iter()).nth(k as usize).unwrap();
                let x = wrap(c.nums[1]).replace('§', &wrap(c.nums[0]).replace('§', t));
                o.hit("phrases inside two bodies");
                let v = mon::run(&x).verdict;
                if !v.accepted() {
                    return Err(format!("accepted at the top level, but {} inside {} inside {}: {:?}", v.name(), wrap(c.nums[0]).replace('\n', " "), wrap(c.nums[1]).replace('\n', " "), t));
                }
            }
            "statements" => {
                let t = c.text();
                let run = mon::run(t);
                let module = run.significant().any(|e| {
                    matches!(t.get(e.range.start.offset..e.range.end.offset), Some("import") | Some("export"))
                });
                if !run.verdict.accepted() || module {
                    o.hit("statement lists rejected or with module items");
                    return Ok(());
                }
                o.nontrivial = run.ev.len() >= 3;
                o.sample("statements", t);
                for _ in 0..4 {
                    let mut x = t.to_string();
                    let mut names = String::new();
                    for _ in 0..r.range(1, 3) {
                        let w = if r.one_in(6) { STMT_WRAP2[r.below(STMT_WRAP2.len())] } else { STMT_WRAP[r.below(STMT_WRAP.len())] };
                        x = w.replace('§', &x);
                        names.push_str(&w.replace('\n', " "));
                        names.push_str("  ");
                    }
                    o.hit("statement lists inside bodies");
                    let v = mon::run(&x).verdict;
                    if !v.accepted() {
                        return Err(format!("accepted at the top level, but {} inside {}: {:?}", v.name(), names, mon::clip(t, 300)));
                    }
                }
                if r.one_in(8) && t.len() < 400 {
                    // Up to some hundreds deep; bodies with one place, so that the text grows by a line each.
                    let turn: Vec<&str> = (0..r.range(1, 3))
                        .map(|_| loop {
                            let w = if r.one_in(6) { STMT_WRAP2[r.below(STMT_WRAP2.len())] } else { STMT_WRAP[r.below(STMT_WRAP.len())] };
                            if w.matches('§').count() == 1 {
                                break w;
                            }
                        })
                        .collect();
                    let n = r.range(4, 300);
                    deep_inside(&turn, n, t, t, o)?;
                }
            }
            _ => {
                let t = c.text();
                let init = format!("v=\n{}\n", t);
                let run = mon::run(&init);
                if !run.verdict.accepted() || !one_expression(t) {
                    o.hit("expressions rejected");
                    return Ok(());
                }
                o.nontrivial = run.ev.len() >= 5;
                o.sample("expression", t);
                for _ in 0..6 {
                    // Brackets make no difference, whatever stands around them.
                    let (inner, outer);
                    let w = if r.one_in(3) {
                        inner = BRACKETS[r.below(BRACKETS.len())];
                        let mid = if r.one_in(3) { MIDDLES[r.below(MIDDLES.len())].replace('§', inner) } else { inner.to_string() };
                        outer = OUTERS[r.below(OUTERS.len())].replace('§', &mid);
                        &outer[..]
                    } else {
                        EXPR_WRAP[r.below(EXPR_WRAP.len())]
                    };
                    let x = w.replace('§', &if w.starts_with("throw") { format!("({}\n)", t) } else { t.to_string() });
                    o.hit("expressions put in place");
                    let v = mon::run(&x).verdict;
                    if !v.accepted() {
                        return Err(format!("accepted as an initializer, but {} in {}: {:?}", v.name(), w.replace('\n', ""), mon::clip(t, 300)));
                    }
                }
                if r.one_in(8) && t.len() < 400 {
                    let turn: Vec<String> = (0..r.range(1, 3))
                        .map(|_| {
                            let b = BRACKETS[r.below(BRACKETS.len())];
                            if r.one_in(2) { MIDDLES[r.below(MIDDLES.len())].replace('§', b) } else { b.to_string() }
                        })
                        .collect();
                    let turn: Vec<&str> = turn.iter().map(|s| &s[..]).collect();
                    let n = r.range(4, 300);
                    let outer = r.pick(&["x=§", "f(§)", "for(x=§;;);", "for(x of §\n);", "if(§);", "export default 1+§", "`${§}`", "x=>(§)", "throw 1+§"]);
                    let (before, after) = outer.split_at(outer.find('§').unwrap());
                    let after = &after['§'.len_utf8()..];
                    let mut x = deep_text(&turn, n, t);
                    x.insert_str(0, before);
                    x.push_str(after);
                    o.hit("expressions put deep");
                    let v = mon::run(&x).verdict;
                    if !v.accepted() {
                        return Err(format!("accepted as an initializer, but {} in {}, {} deep, in {}: {:?}", v.name(), turn.join("  ").replace('\n', ""), n, outer, mon::clip(t, 300)));
                    }
                }
            }
        }
        Ok(())
    }
}
/// The places of `turn` around the text, taking turns, `n` of them in all.
fn deep_text(turn: &[&str], n: usize, t: &str) -> String {
    let (mut open, mut close) = (vec![], String::from(t));
    for i in 0..n {
        let w = turn[i % turn.len()];
        let at = w.find('§').unwrap();
        open.push(&w[..at]);
        close.push_str(&w[at + '§'.len_utf8()..]);
    }
    open.iter().rev().copied().collect::<String>() + &close
}
/// An accepted statement list must be accepted within `n` bodies too, and after them.
fn deep_inside(turn: &[&str], n: usize, t: &str, after: &str, o: &mut Obs) -> Result<(), String> {
    let mut x = deep_text(turn, n, t);
    x.push_str("\n;\n");
    x.push_str(after);
    o.hit("statement lists deep inside bodies");
    let v = mon::run(&x).verdict;
    if !v.accepted() {
        return Err(format!("accepted at the top level, but {} {} deep inside {}: {:?}", v.name(), n, turn.join("  ").replace('\n', ""), mon::clip(t, 300)));
    }
    Ok(())
}
/// Is the text one expression, so that brackets may be put around it? Judged by the parser under test: the text must also stand as the
/// only element of an array and as an argument.
fn one_expression(t: &str) -> bool {
    // A semicolon inserted after a line break, or a comma, makes it more than one.
    mon::plain(&format!("v=[\n{}\n]", t)).accepted() || mon::plain(&format!("(\n{}\n)", t)).accepted()
}

/// What a direct reader is told at the start of a text; used by other checks.
pub fn first_answer(text: &str, h: mon::H) -> Result<String, Verdict> {
    let mut d = Drive::new(text);
    d.next(h).map(|e| mon::describe(&e.tok))
}
