//! C17 to C21: the parser and its surroundings: other parses, other token sources, the machine, the command line, memory.

use crate::case::{Case, Check, Obs, Tier};
use crate::gen;
use crate::phrases;
use crate::mon::{self, Ev, Log, Verdict, H};
use crate::rng::Rng;
use crate::sup;
use crate::work;
use jsparse::verif_hooks::tokens::{self, Token};
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::fmt;
use std::fs;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;
use std::time::{Duration, Instant};

type Real<'c> = <&'c str as IntoTokenizer<'c>>::Item;

// ---- C17

/// Everything observable about a parse.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Digest {
    verdict: String,
    requests: usize,
    hash: u64,
}
struct HashWriter(DefaultHasher);
impl fmt::Write for HashWriter {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.write(s.as_bytes());
        Ok(())
    }
}
pub fn digest_of(verdict: &Verdict, requests: usize, ev: &[Ev]) -> Digest {
    let mut h = HashWriter(DefaultHasher::new());
    for e in ev {
        let _ = fmt::write(&mut h, format_args!("{:?}|{:?}|{:?};", e.hint, e.tok, e.range));
    }
    Digest { verdict: verdict.name(), requests, hash: h.0.finish() }
}
pub fn digest(text: &str) -> Digest {
    let r = mon::run(text);
    digest_of(&r.verdict, r.requests, &r.ev)
}
pub const DIFFERS: &str = "not the same:";
fn differs(what: &str, a: &Digest, b: &Digest) -> String {
    if a.verdict != b.verdict {
        format!("{}, not the same: first {}, then {}", what, a.verdict, b.verdict)
    } else if a.requests != b.requests {
        format!("{}, not the same: first {} token requests, then {}", what, a.requests, b.requests)
    } else {
        format!("{}, not the same: the hints, tokens or positions of the same {} requests differ", what, a.requests)
    }
}

/// Runs other parses from inside a parse, at chosen requests.
struct Nesting<'c> {
    inner: Real<'c>,
    other: Rc<(String, Digest)>,
    at: Rc<Vec<usize>>,
    n: usize,
    wrong: Rc<RefCell<Option<String>>>,
    count: Rc<Cell<usize>>,
}
impl<'c> Clone for Nesting<'c> {
    fn clone(&self) -> Self {
        Nesting { inner: self.inner.clone(), other: self.other.clone(), at: self.at.clone(), n: self.n, wrong: self.wrong.clone(), count: self.count.clone() }
    }
}
impl<'c> fmt::Debug for Nesting<'c> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Nesting")
    }
}
impl<'c> Tokenizer<'c> for Nesting<'c> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        if self.at.contains(&self.n) {
            let d = digest(&self.other.0);
            self.count.set(self.count.get() + 1);
            if d != self.other.1 {
                *self.wrong.borrow_mut() = Some(differs("a parse begun while another was under way", &self.other.1, &d));
            }
        }
        self.n += 1;
        self.inner.next_token(h, (out.0, out.1));
    }
}

/// Gives up its turn at chosen requests, so that threads mix in many ways.
#[derive(Clone, Debug)]
struct Yielding<'c> {
    inner: Real<'c>,
    r: u64,
}
impl<'c> Tokenizer<'c> for Yielding<'c> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        self.r = self.r.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        match (self.r >> 40) % 8 {
            0 => std::thread::yield_now(),
            1 => {
                for _ in 0..((self.r >> 50) % 200) {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
        self.inner.next_token(h, (out.0, out.1));
    }
}

/// Takes long for some of its tokens.
#[derive(Clone, Debug)]
struct Slow<'c> {
    inner: Real<'c>,
    n: usize,
    at: Vec<(usize, u64)>,
}
impl<'c> Tokenizer<'c> for Slow<'c> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let early = self.n % 2 == 0;
        let n = self.n;
        let stop = || {
            for (at, ms) in &self.at {
                if *at == n {
                    std::thread::sleep(Duration::from_millis(*ms));
                }
            }
        };
        if early {
            stop();
        }
        self.inner.next_token(h, (out.0, out.1));
        if !early {
            stop();
        }
        self.n += 1;
    }
}

/// Stops at one request until as many threads as there are have come to theirs (or have ended, or two seconds have passed).
struct Meeting {
    here: std::sync::atomic::AtomicUsize,
    all: usize,
    met: std::sync::atomic::AtomicUsize,
}
impl Meeting {
    fn come(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        self.here.fetch_add(1, SeqCst);
    }
    fn wait(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        self.come();
        let t = Instant::now();
        while self.here.load(SeqCst) < self.all {
            if t.elapsed() > Duration::from_secs(2) {
                return;
            }
            std::thread::yield_now();
        }
        self.met.fetch_add(1, SeqCst);
    }
}
#[derive(Clone)]
struct Meets<'c> {
    inner: Real<'c>,
    at: usize,
    n: usize,
    with: std::sync::Arc<Meeting>,
}
impl<'c> fmt::Debug for Meets<'c> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Meets")
    }
}
impl<'c> Tokenizer<'c> for Meets<'c> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        if self.n == self.at {
            self.with.wait();
        }
        self.n += 1;
        self.inner.next_token(h, (out.0, out.1));
    }
}

/// Brackets in brackets.
fn nested(r: &mut Rng, deepest: usize) -> String {
    let n = r.range(1, deepest);
    if r.one_in(2) {
        return crate::parsechecks::nest(r.below(1000), n);
    }
    let (mut open, mut close) = (String::new(), String::new());
    let nests = &crate::parsechecks::NESTS;
    let (a, b) = (r.below(nests.len()), r.below(nests.len()));
    for k in 0..n {
        let (o, c, _) = nests[if k % 2 == 0 { a } else { b }];
        open.push_str(o);
        close.insert_str(0, c);
    }
    format!("{}a{}", open, close)
}

/// Parses its text when it goes.
struct Later(String, Rc<RefCell<Option<Digest>>>);
impl Drop for Later {
    fn drop(&mut self) {
        let d = digest(&self.0);
        *self.1.borrow_mut() = Some(d);
    }
}

pub struct C17;
impl Check for C17 {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "Random groups of texts (valid, damaged, truncated in mid-construct). What each parse does (verdict, every hint, token and position) is recorded, then compared with: parsing it again at another address inside a larger text, and at every alignment with other bytes around; after parses of the others, accepted, rejected, and abandoned by a token source that gives up part-way; while other parses run inside its own token requests; from a source that takes up to a second for a token; in a destructor that runs while a failure elsewhere unwinds; in several threads at once that give up their turns at random, or that all stop in the middle of deeply nested texts until the others are there too; of texts of hundreds of lines, in threads of any name and stack; after thousands of repeated parses of texts cut short, and 70 000 of short ones; in up to 300 threads at once; and in a process that has parsed nothing else, in its main thread or another, with other environment variables and another directory, although this one has parsed thousands of texts. Non-trivial: at least three tokens."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 2_000_000 } else { 60_000 }
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        let n = r.range(2, 4);
        let mut texts = vec![];
        for _ in 0..n {
            let mut t = if r.one_in(3) { work::any(r, 60).1 } else { work::source(r, 40) };
            if r.one_in(4) {
                let cs: Vec<char> = t.chars().collect();
                t = cs[..r.below(cs.len() + 1)].iter().collect();
            }
            texts.push(t);
        }
        if i % 200 == 7 {
            // Some are parsed very often in between; what is left open by a parse cut short would add up.
            let short = |r: &mut Rng| {
                let t = if r.one_in(3) { nested(r, 6) } else { work::source(r, 12) };
                if t.len() > 200 {
                    return "{".to_string();
                }
                let cs: Vec<char> = t.chars().collect();
                let n = if r.one_in(4) { cs.len() } else { r.below(cs.len() + 1) };
                cs[..n].iter().collect()
            };
            texts.truncate(2);
            texts.push(nested(r, 30));
            texts.push(short(r));
            texts.push(short(r));
            let often = match crate::novel::num(r, 2, 20_000) {
                Some(n) => n as u64,
                None => r.choose(&[300, 1100, 2100, 3000, 4200]),
            };
            return Case::with("repeated many times", texts, vec![r.next() >> 16, often]);
        }
        if i % 4000 == 2011 {
            // More often than a narrow counter can count.
            let t = r.choose(&[";", "a", "x=>y", "(", "`", "{}", "/a/"]);
            texts.push(t.into());
            texts.push(r.choose(&[";", "a.b", "'", "f(a)", ")"]).into());
            return Case::with("repeated many times", texts, vec![r.next() >> 16, 70_000]);
        }
        if i % 4000 == 1011 {
            let n = match crate::novel::num(r, 2, 400) {
                Some(n) => n,
                None => r.choose(&[30, 70, 140, 260, 300]),
            };
            let texts = (0..n).map(|_| nested(r, 12)).collect();
            return Case::with("deep in all threads", texts, vec![r.next() >> 16]);
        }
        if i % 200 == 57 {
            // With long gaps and lexemes, which may be read several bytes at a time.
            let texts = (0..2)
                .map(|_| {
                    let t = gen::longer(30, || work::source(r, 12));
                    let mut s = String::new();
                    for c in mon::clip(&t, 2000).chars() {
                        s.push(c);
                        if r.one_in(12) {
                            let n = r.range(1, 70);
                            let u = r.choose(&[" ", " ", "\t", "\n", "a", "0", "/", "\u{A0}"]);
                            s.push_str(&u.repeat(n));
                        }
                    }
                    s
                })
                .collect();
            return Case::with("at every alignment", texts, vec![r.next() >> 16]);
        }
        if i % 200 == 157 {
            // Many lines, in threads by any name.
            let texts = (0..2)
                .map(|_| {
                    let mut t = "\n".repeat(r.below(70));
                    for _ in 0..r.range(30, 200) {
                        t.push_str(&gen::longer(20, || work::source(r, 3)));
                        t.push_str(r.pick(&["\n", ";\n", "\n\n", "\r\n", ";\u{2028}"]));
                    }
                    t
                })
                .collect();
            return Case::with("in threads by any name", texts, vec![r.next() >> 16]);
        }
        if i % 200 == 107 {
            // The same in all threads, each kind in its turn, or something else in each.
            let same = (i / 200) % 64;
            let texts = (0..8)
                .map(|_| if same < crate::parsechecks::NESTS.len() as u64 { crate::parsechecks::nest(same as usize, r.range(280, 300)) } else { nested(r, 300) })
                .collect();
            return Case::with("deep in all threads", texts, vec![r.next() >> 16]);
        }
        if i % 1000 == 17 {
            return Case::with("slow source", texts, vec![r.next() >> 16]);
        }
        let kind = match i % 64 {
            0 => "processes",
            1..=7 => "threads",
            8..=30 => "nested",
            _ => "repeated",
        };
        Case::with(kind, texts, vec![r.next() >> 16])
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let mut r = Rng::new(c.nums[0]);
        let text = c.text();
        let first = digest(text);
        o.nontrivial = first.requests >= 3;
        o.hit(&format!("groups: {}", c.kind));
        match c.kind.as_str() {
            "repeated" => {
                let firsts: Vec<Digest> = c.texts.iter().map(|t| digest(t)).collect();
                for round in 0..3 {
                    for k in 0..c.texts.len() {
                        let j = (k + r.below(c.texts.len())) % c.texts.len();
                        let again = match (round + k) % 3 {
                            0 => digest(&c.texts[j]),
                            1 => {
                                // at another address, among other text
                                let pre = &"'`/*${\u{2028}"[..r.below(5)];
                                let s = format!("{}{}{}", pre, c.texts[j], ["'", "`", "*/", "a", "}", "", "\n"][r.below(7)]);
                                let part = &s[pre.len()..pre.len() + c.texts[j].len()];
                                let r = mon::run(part);
                                digest_of(&r.verdict, r.requests, &r.ev)
                            }
                            _ => {
                                // abandon one first
                                let n = r.below(12);
                                let t = &c.texts[r.below(c.texts.len())];
                                let x = mon::run_with(t.as_str().into_tokenizer(), n, false);
                                if x.verdict == Verdict::Budget {
                                    o.hit("parses abandoned part-way");
                                }
                                digest(&c.texts[j])
                            }
                        };
                        o.hit("parses repeated");
                        if again != firsts[j] {
                            return Err(format!("{} ({:?})", differs("parsing the same text again", &firsts[j], &again), mon::clip(&c.texts[j], 200)));
                        }
                    }
                }
                if r.one_in(3) {
                    // from a destructor that runs because of a failure elsewhere
                    let j = r.below(c.texts.len());
                    let found = Rc::new(RefCell::new(None));
                    let later = Later(c.texts[j].clone(), found.clone());
                    let _ = mon::catch(move || {
                        let _later = later;
                        std::panic::panic_any("elsewhere");
                    });
                    let again = found.borrow_mut().take();
                    o.hit("parses in destructors while a panic unwinds");
                    match again {
                        Some(d) if d == firsts[j] => {}
                        Some(d) => return Err(format!("{} ({:?})", differs("the same text while a failure elsewhere unwinds", &firsts[j], &d), mon::clip(&c.texts[j], 200))),
                        None => return Err("a parse in a destructor did not end".into()),
                    }
                }
                let v = mon::plain(text);
                if v.accepted() != (first.verdict == "accepted") {
                    return Err(format!("parse_root says {}, through a recording source it was {}", v.name(), first.verdict));
                }
                Ok(())
            }
            "nested" => {
                let other = &c.texts[1];
                let od = digest(other);
                let at: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(first.requests.max(1))).collect();
                let wrong = Rc::new(RefCell::new(None));
                let count = Rc::new(Cell::new(0));
                let t = Nesting { inner: text.into_tokenizer(), other: Rc::new((other.clone(), od)), at: Rc::new(at), n: 0, wrong: wrong.clone(), count: count.clone() };
                let run = mon::run_with(t, mon::budget_for(text), true);
                o.add("parses run inside another", count.get() as u64);
                if let Some(m) = wrong.borrow().clone() {
                    return Err(m);
                }
                // A panic of the parse inside has changed what is known about this one's; the verdict's kind is by its own requests.
                let d = digest_of(&run.verdict, run.requests, &run.ev);
                if d != first {
                    return Err(differs("a parse with others run in its middle", &first, &d));
                }
                Ok(())
            }
            "slow source" => {
                let n = first.requests.max(1);
                let long = r.choose(&[60, 120, 300, 600, 1200]);
                let mut at = vec![(r.below(n), long)];
                for _ in 0..r.below(20) {
                    at.push((r.below(n), r.below(40) as u64));
                }
                let run = mon::run_with(Slow { inner: text.into_tokenizer(), n: 0, at }, mon::budget_for(text), true);
                let d = digest_of(&run.verdict, run.requests, &run.ev);
                o.max("milliseconds spent on one token", long);
                if d != first {
                    return Err(differs("a parse from a source that takes its time", &first, &d));
                }
                Ok(())
            }
            "at every alignment" => {
                for t in &c.texts {
                    let first = digest(t);
                    // room for a multiple of 64 to start at
                    let mut buf = vec![b' '; t.len() + 256];
                    let base = (64 - buf.as_ptr() as usize % 64) % 64;
                    for k in 0..64 {
                        let at = base + k;
                        buf[at..at + t.len()].copy_from_slice(t.as_bytes());
                        let junk = [b' ', b'a', b'/', b'*', b'\n', b'`', b'0', b'"'][(k + r.below(8)) % 8];
                        buf[at + t.len()..].fill(junk);
                        buf[..at].fill(junk);
                        let part = std::str::from_utf8(&buf[at..at + t.len()]).unwrap();
                        let run = mon::run(part);
                        let d = digest_of(&run.verdict, run.requests, &run.ev);
                        o.hit("parses at chosen alignments");
                        if d != first {
                            return Err(format!("{} ({:?})", differs(&format!("the same text at an address {} beyond a multiple of 64", k), &first, &d), mon::clip(t, 300)));
                        }
                    }
                }
                Ok(())
            }
            "repeated many times" => {
                let n = c.texts.len();
                let (whole, often) = c.texts.split_at(n - 2);
                let firsts: Vec<Digest> = whole.iter().map(|t| digest(t)).collect();
                for round in 0..c.nums[1] {
                    let t = &often[(round % 2) as usize];
                    if r.one_in(8) {
                        let cut = r.below(8);
                        mon::run_with(t.as_str().into_tokenizer(), cut, false);
                    } else {
                        mon::plain(t);
                    }
                }
                o.add("parses repeated many times", c.nums[1]);
                for (t, first) in whole.iter().zip(&firsts) {
                    let again = digest(t);
                    if again != *first {
                        return Err(format!("{} ({:?})", differs(&format!("after {} other parses", c.nums[1]), first, &again), mon::clip(t, 200)));
                    }
                }
                Ok(())
            }
            "in threads by any name" => {
                for t in &c.texts {
                    let first = digest(t);
                    for name in [Some("main"), None, Some("worker"), Some("0"), Some("")] {
                        let again = std::thread::scope(|s| {
                            let b = std::thread::Builder::new().stack_size(r.choose(&[16, 24, 64, 500]) << 20);
                            let b = match name {
                                Some(n) => b.name(n.to_string()),
                                None => b,
                            };
                            b.spawn_scoped(s, || digest(t)).unwrap().join()
                        });
                        o.hit("parses in threads by other names");
                        match again {
                            Ok(d) if d == first => {}
                            Ok(d) => return Err(format!("{} ({:?})", differs(&format!("the same text in a thread named {:?}", name), &first, &d), mon::clip(t, 300))),
                            Err(_) => return Err("a parsing thread failed".into()),
                        }
                    }
                    let h = format!("{}|{} {}", first.verdict, first.requests, first.hash);
                    let there = fresh_digest(t, &mut r)?;
                    if h != there {
                        return Err(format!("here: {}; a fresh process: {} ({:?})", h, there, mon::clip(t, 300)));
                    }
                }
                Ok(())
            }
            "deep in all threads" => {
                // A heap of its own for each thread would exceed the space a worker may have.
                unsafe { libc::mallopt(-8, 8) };
                let firsts: Vec<Digest> = c.texts.iter().map(|t| digest(t)).collect();
                let ats: Vec<usize> = firsts.iter().map(|d| (d.requests / 2).saturating_sub(r.below(4))).collect();
                let m = std::sync::Arc::new(Meeting { here: Default::default(), met: Default::default(), all: c.texts.len() });
                let res: Vec<Option<String>> = std::thread::scope(|s| {
                    let hs: Vec<_> = c
                        .texts
                        .iter()
                        .zip(&firsts)
                        .zip(&ats)
                        .map(|((t, first), at)| {
                            let m = m.clone();
                            std::thread::Builder::new()
                                .stack_size(if c.texts.len() > 8 { 4 << 20 } else { 64 << 20 })
                                .spawn_scoped(s, move || {
                                    let run = mon::run_with(Meets { inner: t.as_str().into_tokenizer(), at: *at, n: 0, with: m.clone() }, mon::budget_for(t), true);
                                    m.come();
                                    let d = digest_of(&run.verdict, run.requests, &run.ev);
                                    if d != *first {
                                        Some(format!("{} ({:?})", differs("a parse while others are deep in theirs in other threads", first, &d), mon::clip(t, 200)))
                                    } else {
                                        None
                                    }
                                })
                                .unwrap()
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap_or(Some("a parsing thread failed".into()))).collect()
                });
                o.add("threads that met in mid-parse", m.met.load(std::sync::atomic::Ordering::SeqCst) as u64);
                match res.into_iter().flatten().next() {
                    Some(m) => Err(m),
                    None => Ok(()),
                }
            }
            "threads" => {
                let firsts: Vec<Digest> = c.texts.iter().map(|t| digest(t)).collect();
                let seed = c.nums[0];
                let res: Vec<Option<String>> = std::thread::scope(|s| {
                    let mut hs = vec![];
                    for k in 0..4u64 {
                        let texts = &c.texts;
                        let firsts = &firsts;
                        hs.push(
                            std::thread::Builder::new()
                                .stack_size(64 << 20)
                                .spawn_scoped(s, move || {
                                    let mut r = Rng::new(seed ^ (k << 40));
                                    for _ in 0..4 {
                                        let j = r.below(texts.len());
                                        let t = Yielding { inner: texts[j].as_str().into_tokenizer(), r: r.next() };
                                        let run = mon::run_with(t, mon::budget_for(&texts[j]), true);
                                        let d = digest_of(&run.verdict, run.requests, &run.ev);
                                        if d != firsts[j] {
                                            return Some(differs("a parse beside others in other threads", &firsts[j], &d));
                                        }
                                    }
                                    None
                                })
                                .unwrap(),
                        );
                    }
                    hs.into_iter().map(|h| h.join().unwrap_or(Some("a parsing thread failed".into()))).collect()
                });
                o.add("parses in concurrent threads", 16);
                match res.into_iter().flatten().next() {
                    Some(m) => Err(m),
                    None => Ok(()),
                }
            }
            _ => {
                for t in &c.texts {
                    let here = digest(t);
                    let there = fresh_digest(t, &mut r)?;
                    o.hit("parses compared with a fresh process");
                    let h = format!("{} {} {:016x}", here.requests, here.hash, 0).replace(" 0000000000000000", "");
                    let h = format!("{}|{}", here.verdict, h);
                    if h != there {
                        return Err(format!("this process, which has parsed other texts before: {}; a fresh process: {} ({:?})", h, there, mon::clip(t, 200)));
                    }
                }
                Ok(())
            }
        }
    }
}
pub fn digest_main() {
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).unwrap();
    let t = String::from_utf8(b).unwrap();
    let d = digest(&t);
    println!("DIGEST {}|{} {}", d.verdict, d.requests, d.hash);
}
/// Variables that should not matter.
const SURROUNDINGS: [(&str, &str); 11] = [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "C"), ("TZ", "Pacific/Kiritimati"), ("HOME", "/nonexistent"), ("TERM", "dumb"), ("DEBUG", "1"), ("RUST_LOG", "trace"), ("COLUMNS", "20"), ("NODE_ENV", "production"), ("CI", "1"), ("JSPARSE_DEBUG", "1")];
/// What a process that has parsed nothing else makes of the text, in surroundings that should not matter.
fn fresh_digest(t: &str, r: &mut Rng) -> Result<String, String> {
    let mut ch = Command::new(std::env::current_exe().unwrap());
    ch.arg(if r.one_in(2) { "digest" } else { "digest-main" });
    if r.one_in(3) {
        ch.env_clear();
    }
    for (k, v) in SURROUNDINGS {
        if r.one_in(4) {
            ch.env(k, v);
        }
    }
    for _ in 0..3 {
        if let Some(w) = crate::novel::word(r, 1).filter(|w| !w.contains(['=', '\0'])) {
            ch.env(w, r.pick(&["1", "0", "", "true"]));
        }
    }
    if r.one_in(3) {
        ch.current_dir("/");
    }
    let mut ch = ch
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    ch.stdin.take().unwrap().write_all(t.as_bytes()).unwrap();
    let out = ch.wait_with_output().unwrap();
    let s = String::from_utf8_lossy(&out.stdout);
    match s.lines().rev().find_map(|l| l.strip_prefix("DIGEST ")) {
        Some(d) => Ok(d.to_string()),
        None => Err(format!("a fresh process did not survive the text: {:?}", out.status)),
    }
}

// ---- C18

/// How a token source differs from the built-in one.
#[derive(Clone, Debug)]
struct Disguise {
    owned: bool,
    /// escapes in the text of strings and templates replaced by what they stand for
    decoded: bool,
    spaces: bool,
    comments: bool,
    lines: bool,
    ranges: u8,
}

#[derive(Clone)]
struct Other<'c, T> {
    inner: T,
    d: Disguise,
    r: Rc<RefCell<Rng>>,
    /// answers to come before the next one is asked for
    queue: std::collections::VecDeque<(Token<'c>, TokenRange)>,
    /// the answer that was obtained under this hint but has not been given yet
    held: Option<(H, Token<'c>, TokenRange)>,
    wrong: Rc<RefCell<Option<String>>>,
}
impl<'c, T> fmt::Debug for Other<'c, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Other")
    }
}

fn own<'a>(c: Cow<'a, str>) -> Cow<'static, str> {
    Cow::Owned(c.into_owned())
}
fn owned<'c>(t: Token<'c>) -> Token<'static> {
    match t {
        Token::Punctuator(p) => Token::Punctuator(p),
        Token::Comment(c) => Token::Comment(tokens::CommentToken { format: c.format, value: own(c.value) }),
        Token::Whitespace(_) => Token::Whitespace(tokens::WhitespaceToken {}),
        Token::LineTerminator(_) => Token::LineTerminator(tokens::LineTerminatorToken {}),
        Token::RegularExpressionLiteral(r) => {
            Token::RegularExpressionLiteral(tokens::RegularExpressionLiteralToken { pattern: own(r.pattern), flags: own(r.flags) })
        }
        Token::IdentifierName(n) => Token::IdentifierName(tokens::IdentifierNameToken { name: own(n.name) }),
        Token::NumericLiteral(n) => Token::NumericLiteral(n),
        Token::StringLiteral(s) => Token::StringLiteral(tokens::StringLiteralToken { value: own(s.value) }),
        Token::Template(t) => Token::Template(tokens::TemplateToken { format: t.format, cooked: own(t.cooked), raw: own(t.raw) }),
        Token::EOF(e) => Token::EOF(e),
    }
}
/// The text with its escapes replaced by what they stand for.
fn decode(t: &str) -> String {
    let mut out = String::new();
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            out.push(c);
            continue;
        }
        match it.next() {
            None => out.push('\\'),
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some('0') => out.push('\0'),
            Some(e @ 'x') | Some(e @ 'u') => {
                let braces = it.peek() == Some(&'{');
                let most = if e == 'x' { 2 } else if braces { 9 } else { 4 };
                if braces {
                    it.next();
                }
                let mut v = 0;
                for _ in 0..most {
                    match it.peek().and_then(|c| c.to_digit(16)) {
                        Some(d) => {
                            v = v * 16 + d as u64;
                            it.next();
                        }
                        None => break,
                    }
                }
                if braces && it.peek() == Some(&'}') {
                    it.next();
                }
                out.push(std::char::from_u32(v.min(0x11_0000) as u32).unwrap_or('\u{FFFD}'));
            }
            Some('\n') | Some('\u{2028}') | Some('\u{2029}') => (),
            Some('\r') => {
                if it.peek() == Some(&'\n') {
                    it.next();
                }
            }
            Some(c) => out.push(c),
        }
    }
    out
}
fn decoded<'c>(t: Token<'c>) -> Token<'c> {
    match t {
        Token::StringLiteral(s) => {
            let d = decode(&s.value);
            // a directive is recognised by how it is written
            let value = if d == "use strict" { s.value } else { Cow::Owned(d) };
            Token::StringLiteral(tokens::StringLiteralToken { value })
        }
        Token::Template(t) => Token::Template(tokens::TemplateToken { format: t.format, cooked: Cow::Owned(decode(&t.cooked)), raw: t.raw }),
        t => t,
    }
}
fn block_comment(multi: bool, text: &str) -> (Token<'static>, bool) {
    (
        Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::Block, value: Cow::Owned(if multi { format!("{}\n", text) } else { text.into() }) }),
        multi,
    )
}

impl<'c, T: Tokenizer<'c>> Other<'c, T> {
    fn dress(&self, t: Token<'c>) -> Token<'c> {
        let t = if self.d.decoded { decoded(t) } else { t };
        if self.d.owned { owned(t) } else { t }
    }
    fn lie(&self, mut g: TokenRange, r: &mut Rng, multi: bool) -> TokenRange {
        match self.d.ranges {
            0 => g,
            1 => {
                // all in one place
                g = TokenRange::default();
                g.end.line = multi as usize;
                g
            }
            _ => {
                let l = r.below(1000);
                g.start.line = l;
                g.end.line = l + if multi { r.range(1, 3) } else { 0 };
                g.start.column = r.below(100);
                g.end.column = r.below(100);
                g.start.offset = r.below(100_000);
                g.end.offset = r.below(100_000);
                g
            }
        }
    }
}
impl<'c, T: Tokenizer<'c>> Tokenizer<'c> for Other<'c, T> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let rc = self.r.clone();
        let mut r = rc.borrow_mut();
        let hint = mon::unhint(h);
        if let Some((t, g)) = self.queue.pop_front() {
            *out.0 = t;
            *out.1 = g;
            return;
        }
        if let Some((hh, t, g)) = self.held.take() {
            if hh != hint {
                *self.wrong.borrow_mut() =
                    Some(format!("asked under hints {:?}, and after white space or comments were returned, again under hints {:?}", hh, hint));
            }
            *out.0 = t;
            *out.1 = g;
            return;
        }
        let mut tok: Token<'c> = Token::Whitespace(tokens::WhitespaceToken {});
        let mut range = TokenRange::default();
        drop(r);
        self.inner.next_token(h, (&mut tok, &mut range));
        r = rc.borrow_mut();
        let trivia = mon::is_trivia(&tok);
        let multi = if let Token::Comment(_) = tok { range.start.line != range.end.line } else { false };
        let mut all: Vec<(Token<'c>, TokenRange)> = vec![];
        if !trivia {
            for _ in 0..3 {
                if self.d.spaces && r.one_in(2) {
                    let g = self.lie(range, &mut r, false);
                    all.push((Token::Whitespace(tokens::WhitespaceToken {}), g));
                }
                if self.d.comments && r.one_in(3) {
                    let mut g = range;
                    g.end = g.start;
                    let g = self.lie(g, &mut r, false);
                    let t = match r.below(5) {
                        0 => Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::Line, value: Cow::Owned("x".into()) }),
                        3 => Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::HTMLOpen, value: Cow::Borrowed(" x ") }),
                        4 => Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::HTMLClose, value: Cow::Borrowed("x}/") }),
                        1 => Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::Block, value: Cow::Borrowed("") }),
                        _ => block_comment(false, "}/)").0,
                    };
                    all.push((t, g));
                }
            }
            if all.is_empty() {
                let g = self.lie(range, &mut r, false);
                *out.0 = self.dress(tok);
                *out.1 = g;
                return;
            }
            self.held = Some((hint, self.dress(tok), self.lie(range, &mut r, false)));
        } else {
            let line = if let Token::LineTerminator(_) = tok { true } else { multi };
            if line && self.d.lines {
                // the same line-break information in another form
                for _ in 0..r.range(1, 2) {
                    match r.below(4) {
                        0 => all.push((Token::LineTerminator(tokens::LineTerminatorToken {}), self.lie(range, &mut r, false))),
                        1 => {
                            let mut g = range;
                            g.end.line = g.start.line + r.range(1, 3);
                            let g = self.lie(g, &mut r, true);
                            all.push((block_comment(true, "x").0, g));
                        }
                        2 => {
                            let mut g = range;
                            g.end = g.start;
                            let g = self.lie(g, &mut r, false);
                            all.push((Token::Comment(tokens::CommentToken { format: tokens::CommentFormat::Line, value: Cow::Owned("y".into()) }), g));
                            all.push((Token::LineTerminator(tokens::LineTerminatorToken {}), self.lie(range, &mut r, false)));
                        }
                        _ => {
                            all.push((Token::Whitespace(tokens::WhitespaceToken {}), self.lie(range, &mut r, false)));
                            all.push((Token::LineTerminator(tokens::LineTerminatorToken {}), self.lie(range, &mut r, false)));
                        }
                    }
                }
            } else {
                let g = self.lie(range, &mut r, multi);
                all.push((self.dress(tok), g));
            }
        }
        let mut it = all.into_iter();
        let (t, g) = it.next().unwrap();
        self.queue.extend(it);
        *out.0 = t;
        *out.1 = g;
    }
}

/// Plays back tokens recorded before; there is no source text at all.
#[derive(Clone)]
struct Playback {
    toks: Rc<Vec<(H, Token<'static>, TokenRange)>>,
    at: usize,
    wrong: Rc<RefCell<Option<String>>>,
}
impl fmt::Debug for Playback {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Playback")
    }
}
impl<'c> Tokenizer<'c> for Playback {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let hint = mon::unhint(h);
        match self.toks.get(self.at) {
            Some((hh, t, g)) => {
                if *hh != hint && self.wrong.borrow().is_none() {
                    *self.wrong.borrow_mut() = Some(format!("request {} came under hints {:?} instead of {:?}", self.at, hint, hh));
                }
                self.at += 1;
                *out.0 = t.clone();
                *out.1 = *g;
            }
            None => panic!("no more tokens"),
        }
    }
}

fn significant(ev: &[Ev]) -> Vec<(H, String)> {
    ev.iter().filter(|e| !e.trivia()).map(|e| (e.hint, format!("{:?}", e.tok))).collect()
}
/// The same without the text that a source may have decoded.
fn significant_undecoded(ev: &[Ev]) -> Vec<(H, String)> {
    let blank = |t: &Token| match t {
        Token::StringLiteral(_) => "a string".to_string(),
        Token::Template(t) => format!("a template {:?} {:?}", t.format, t.raw),
        t => format!("{:?}", t),
    };
    ev.iter().filter(|e| !e.trivia()).map(|e| (e.hint, blank(&e.tok))).collect()
}

pub struct C18;
impl Check for C18 {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "Random texts of every kind, and phrases that between them use every production with tokens changed and line breaks in every gap, parsed through the built-in tokenizer and through sources that deliver the same significant tokens differently: text owned, escapes in strings and templates decoded, white space as tokens, comments added, line terminators doubled or turned into comments that span lines, positions made up (keeping only whether a comment spans lines), and from a recording without any source text. Verdicts and the sequence of hints and significant tokens must be the same. Non-trivial: at least three significant tokens."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 4_000_000 } else { 450_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        let (n, b) = (phrases::neighbours(), phrases::breaks());
        if t.thorough { n + b + phrases::pairs(3) } else { n / 8 + b / 2 + phrases::pairs(1) / 4 }
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let (n, b, step) = if t.thorough { (phrases::neighbours(), phrases::breaks(), 1) } else { (phrases::neighbours() / 8, phrases::breaks() / 2, 4) };
        let text = if i < n {
            phrases::neighbour(i * if t.thorough { 1 } else { 8 } + if t.thorough { 0 } else { i % 8 }, i % 2 == 0)
        } else if i < n + b {
            let k = if t.thorough { i - n } else { (i - n) * 2 + (i - n) % 2 };
            phrases::broken(k).0
        } else {
            let k = (i - n - b) * step;
            phrases::pair(k + if step > 1 { k / 4 % 4 } else { 0 }).0
        };
        Case::with("enumerated", vec![text], vec![i])
    }
    fn gen(&self, r: &mut Rng, _i: u64) -> Case {
        let t = if r.one_in(2) { work::source(r, 60) } else { work::any(r, 60).1 };
        Case::with("sources", vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, _c: &Case) -> bool {
        true
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        let mut r = Rng::new(c.nums[0]);
        let base = mon::run(text);
        let want = significant(&base.ev);
        o.nontrivial = want.len() >= 3;
        o.hit(if base.verdict.accepted() { "accepted" } else { "rejected" });
        o.sample("text", text);
        for _ in 0..3 {
            let d = Disguise { owned: r.one_in(2), decoded: r.one_in(3), spaces: r.one_in(2), comments: r.one_in(2), lines: r.one_in(2), ranges: r.below(3) as u8 };
            let wrong = Rc::new(RefCell::new(None));
            let t = Other {
                inner: text.into_tokenizer(),
                d: d.clone(),
                r: Rc::new(RefCell::new(Rng::new(r.next()))),
                queue: Default::default(),
                held: None,
                wrong: wrong.clone(),
            };
            let run = mon::run_with(t, mon::budget_for(text) * 12, true);
            o.hit("parses through another source");
            o.add("tokens delivered differently", run.ev.len() as u64);
            if let Some(m) = wrong.borrow().clone() {
                return Err(m);
            }
            if d.decoded {
                o.hit("parses with escapes decoded");
                same(&base.verdict, &significant_undecoded(&base.ev), &run.verdict, &significant_undecoded(&run.ev), &format!("{:?}", d))?;
            } else {
                same(&base.verdict, &want, &run.verdict, &significant(&run.ev), &format!("{:?}", d))?;
            }
        }
        // from a recording
        let rec: Vec<_> = base.ev.iter().map(|e| (e.hint, owned(e.tok.clone()), e.range)).collect();
        let n = rec.len();
        let wrong = Rc::new(RefCell::new(None));
        let run = mon::run_with(Playback { toks: Rc::new(rec), at: 0, wrong: wrong.clone() }, mon::budget_for(text), true);
        if let Some(m) = wrong.borrow().clone() {
            return Err(format!("from a recording: {}", m));
        }
        o.hit("parses from a recording");
        same(&base.verdict, &want, &run.verdict, &significant(&run.ev), "a recording")?;
        let _ = n;
        Ok(())
    }
}
fn same(v: &Verdict, want: &[(H, String)], v2: &Verdict, got: &[(H, String)], what: &str) -> Result<(), String> {
    if v != v2 {
        return Err(format!("built-in tokenizer: {}; {}: {}", v.name(), what, v2.name()));
    }
    for k in 0..want.len().max(got.len()) {
        if want.get(k) != got.get(k) {
            return Err(format!("significant request {}: {:?} through the built-in tokenizer, {:?} through {}", k, want.get(k), got.get(k), what));
        }
    }
    Ok(())
}

// ---- C19

/// What comes before, what is repeated, what comes after.
const SCALES: &[(&str, &str, &str)] = &[
    // one long lexeme
    ("", "a", ""), ("", "$_9", ""), ("x=", "1", ""), ("x=1.", "0", ""), ("x=1e-", "1", ""), ("x=0x", "aF", ""), ("x=0b", "10", ""), ("x=0o", "17", ""),
    ("x=.", "25", "e1"), ("'", "a", "'"), ("\"", "é", "\""), ("'", "\\n", "'"), ("'", "\\u0041", "'"), ("'", "\\\n", "'"), ("'", "\\\r\n", "'"),
    ("'", "\u{2028}", "'"), ("'", "\"", "'"), ("`", "a", "`"), ("`", "$", "`"), ("`", "\n", "`"), ("`", "\\`", "`"), ("`", "日", "`"), ("`${a}", "x", "`"),
    ("`${a}", "{", "`"), ("/", "a", "/"), ("/", "[/]", "/"), ("/[", "/", "]/"), ("/", "\\/", "/"), ("/a/", "g", ""), ("/*", "*", "*/"), ("/*", "/", "*/"),
    ("/*", "a", "*/"), ("/*", "\n", "*/"), ("/*", "é\r\n", "*/"), ("//", "a", ""), ("//", "/", ""), ("//", "*/", ""), ("", " ", ""), ("", "\n", ""),
    ("", "\r\n", ""), ("", "\t\u{FEFF}", ""), ("", "\u{2028}", ""), ("a", " ", "b"), ("", "\u{A0}", "a"),
    // many trivia
    ("", "//x\n", ""), ("", "/**/", ""), ("a", "/**/", "+b"), ("a", "/*\n*/", "b"), ("a\n", "\n", "++b"), ("x", " /*a*/ //b\n", "=1"), ("f", "\n", "(a)"),
    // lists and chains
    ("", ";", ""), ("", "a;", ""), ("", "a\n", ""), ("", "f(a,b);\n", ""), ("[", "a,", "]"), ("[", ",", "]"), ("[", "...a,", "]"), ("f(", "a,", "b)"),
    ("f(", "...a,", "b)"), ("x={", "a,", "}"), ("x={", "a:1,", "}"), ("x={", "[a]:1,", "}"), ("x={", "a(){},", "}"), ("x={", "get a(){},", "}"), ("x={", "'a':b,", "}"),
    ("x={", "...a,", "}"), ("x={", "async*a(){},", "}"), ("a", ".b", ""), ("a", "[b]", ""), ("a", "()", ""), ("a", "`t`", ""), ("a", "`${b}`", ""), ("a", ".b(c)[d]", ""), ("new a", ".b", "()"),
    ("a", "+b", ""), ("a", "*b", ""), ("a", "&&b", ""), ("a", "||b", ""), ("a", "<b", ""), ("a", "/b", ""), ("a", " in b", ""), ("a", " instanceof b", ""),
    ("a", "==b", ""), ("a", "|b^c&d", ""), ("a", "<<b>>c>>>d", ""), ("a", "-b%c", ""), ("", "a,", "b"), ("`", "${a}", "`"), ("`", "a${b}c", "`"),
    ("`", "${`${a}`}", "`"), ("var a", ",b", ""), ("var a", ",b=1", ""), ("let a", ",[b]=c", ""), ("const a=1", ",{b,c:d=e}=f", ""), ("var [", "a,", "b]=c"), ("var [", ",", "b]=c"),
    ("var {", "a,", "b}=c"), ("var {", "a:b=1,", "c}=d"), ("(", "a,", "b)=>c"), ("(", "a=1,", "b)=>c"), ("function f(", "a,", "b){}"), ("function f(", "a=1,", "b){}"),
    ("function f(", "{a,b:[c]}=d,", "e){}"), ("", "function f(){}", ""), ("", "async function f(){await a}", ""), ("", "function*f(){yield a}", ""), ("", "class A{}", ""), ("class A{", "m(){}", "}"), ("class A{", ";", "}"),
    ("class A{", "static get [a](){}", "}"), ("class A{", "async m(){await x}", "}"), ("class A{", "*m(){yield x}", "}"), ("", "if(a)b;else c;", ""), ("", "if(a){}", ""), ("if(a)b", ";else if(c)d", ""),
    ("", "for(;;){}", ""), ("", "for(var a of b){}", ""), ("", "for(a in b);", ""), ("", "while(a)b;", ""), ("", "do a;while(b)", ""), ("", "try{}catch(e){}finally{}", ""),
    ("switch(a){", "case 1:", "}"), ("switch(a){", "case b:c;break;", "}"), ("", "switch(a){default:}", ""), ("", "{}", ""), ("", "{a}", ""), ("", "throw a;", ""), ("", "debugger;", ""),
    ("", "/a/.b;", ""), ("", "x=>y;", ""), ("", "(a,b)=>{};", ""), ("", "async x=>await y;", ""), ("", "async(a)=>await b;", ""), ("", "async(a);", ""), ("", "new A(b);", ""), ("", "a?b:c;", ""), ("a", "?b:c,d", ""),
    ("", "import a,{b as c} from 'd';", ""), ("", "import*as a from 'b';", ""), ("import {", "a as b,", "c} from 'd'"), ("export {", "a as b,", "c}"), ("", "export*from 'a';", ""), ("", "export var a=1;", ""),
    ("", "a++;", ""), ("", "--a\n", ""), ("", "a\n++b\n", ""), ("", "delete a.b;", ""), ("", "a:b;", ""), ("x={", "a:{b:[c]},", "}"), ("x=[", "function(){},", "]"), ("x=[", "(a),", "]"), ("x=[", "/b/,", "]"), ("x=[", "class{},", "]"),
    ("function f(){", "return a;", "}"), ("function f(){", "return\n", "}"), ("while(a){", "break;continue\n", "}"), ("", "({a:b}=c);", ""), ("", "[a,b]=[c,d];", ""), ("a", "=b=c,d", ""),
    // right-leaning
    ("", "a=", "b"), ("", "!", "a"), ("", "- ", "a"), ("", "typeof ", "a"), ("", "a?b:", "c"), ("", "x=>", "y"), ("", "a:", "b"), ("", "if(a)", "b"), ("", "new ", "a"), ("", "a**", "b"), ("", "(a=b)=>", "c"), ("", "async x=>", "y"),
    // unterminated tails and refusals
    ("a='", "b", ""), ("a=\"", "\\'", ""), ("a=`", "b", ""), ("a=`", "$", ""), ("a=`${b}", "\n", ""), ("a=/", "b", ""), ("a=/[", "]\\[", ""), ("/*", "*\u{2029}", ""), ("/*", "/*", ""), ("a='", "\\\r\n", "\n"),
    ("[", "a,", ""), ("f(", "a,", ";"), ("x={", "a:1,", ""), ("{", "a;", ""), ("(", "a,", "b"), ("`${", "a+", ""), ("class A{", "m(){}", ""), ("function f(){", "a;", ""), ("", "a+", ""), ("", "a.b;", ")"), ("", "a\n", "@"), ("", "'a';", "'"),
];
/// Nested constructs, for smaller numbers.
fn nests() -> Vec<(&'static str, &'static str, &'static str)> {
    crate::parsechecks::NESTS.iter().map(|(a, b, m)| (*a, *m, *b)).filter(|x| !x.0.starts_with("var [")).collect()
}

const GROUP: usize = 6;

/// The unit with every name and number of one character made different from those of other repetitions, at the same length.
fn different(unit: &str, n: usize) -> String {
    let word = |c: Option<&char>| c.map_or(false, |c| c.is_ascii_alphanumeric() || "$_.\\@".contains(*c) && *c != '.');
    let cs: Vec<char> = unit.chars().collect();
    let mut s = String::new();
    for (i, &c) in cs.iter().enumerate() {
        s.push(c);
        if c.is_ascii_alphanumeric() && !word(cs.get(i.wrapping_sub(1))) && !word(cs.get(i + 1)) {
            if c.is_ascii_digit() {
                s.push_str(&format!("{:07}", n));
            } else {
                // Different at the end, in the middle, or at the front.
                let d = format!("{:07}", n);
                s.push_str(&match n / 24 % 3 {
                    0 => format!("{}xy", d),
                    1 => format!("x{}y", d),
                    _ => format!("xy{}", d),
                });
            }
        }
    }
    s
}

/// The three texts of a measurement.
fn scaled(kind: &str, pre: &str, unit: &str, suf: &str, n: u64) -> Vec<String> {
    (0..3)
        .map(|k| {
            let size = (n << k) as usize;
            if kind == "nests, different" {
                format!("{}{}{}", (0..size).map(|i| different(pre, i)).collect::<String>(), unit, suf.repeat(size))
            } else if kind == "nests" {
                // opening, middle, closing
                format!("{}{}{}", pre.repeat(size), unit, suf.repeat(size))
            } else {
                // A number of times that leaves the same unit last, whatever pairs, triples or quadruples with its neighbours.
                let times = (n as usize / unit.len() / 24).max(1) * 24;
                if kind == "different" {
                    return format!("{}{}{}", pre, (0..times << k).map(|i| different(unit, i)).collect::<String>(), suf);
                }
                format!("{}{}{}", pre, unit.repeat(times << k), suf)
            }
        })
        .collect()
}

thread_local! {
    pub static ALLOCATED: Cell<(u64, u64)> = const { Cell::new((0, 0)) };
}
pub struct Counting;
unsafe impl std::alloc::GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set((a.get().0 + l.size() as u64, a.get().1 + 1)));
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        let _ = ALLOCATED.try_with(|a| a.set((a.get().0 + n as u64, a.get().1 + 1)));
        std::alloc::System.realloc(p, l, n)
    }
}

/// What callgrind counts.
#[no_mangle]
#[inline(never)]
pub extern "C" fn jsmon_region(text: &str) -> u64 {
    match mon::catch(|| jsparse::parser::parse_root::<_, ()>(text)) {
        Ok(()) => 1,
        Err(_) => 0,
    }
}

/// Runs under callgrind: parse every text of a case once, and write what was allocated.
pub fn scale_main(file: &Path, out: &Path) {
    let c = Case::decode(fs::read_to_string(file).unwrap().trim_end_matches('\n')).unwrap();
    jsmon_region("var a=[b,c];"); // the first parse pays for what is set up once
    let mut s = String::new();
    for f in c.texts.chunks(3) {
        for t in scaled(&c.kind, &f[0], &f[1], &f[2], c.nums[0]) {
            let a = ALLOCATED.with(|a| a.get());
            let ok = jsmon_region(&t);
            let b = ALLOCATED.with(|a| a.get());
            s.push_str(&format!("{} {} {}\n", ok, b.0 - a.0, b.1 - a.1));
        }
    }
    fs::write(out, s).unwrap();
}

fn valgrind() -> bool {
    Path::new("/usr/bin/valgrind").exists()
}

/// Instruction counts of every parse, or none if it took too long.
fn measure(c: &Case) -> Result<Option<Vec<(u64, u64, u64, bool)>>, String> {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    let dir = sup::verif_dir().join("work").join(format!("scale.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    fs::create_dir_all(&dir).unwrap();
    let case = dir.join("case");
    let alloc = dir.join("alloc");
    fs::write(&case, c.encode()).unwrap();
    let mut cmd = Command::new("/usr/bin/valgrind");
    cmd.arg("--tool=callgrind")
        .arg(format!("--callgrind-out-file={}", dir.join("cg").display()))
        .args(["--toggle-collect=jsmon_region", "--dump-after=jsmon_region", "--main-stacksize=67108864", "--max-stackframe=67108864", "--compress-strings=yes"])
        .arg(std::env::current_exe().unwrap())
        .arg("scale")
        .arg(&case)
        .arg(&alloc)
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        cmd.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 150, rlim_max: 160 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let st = cmd.status().map_err(|e| e.to_string())?;
    let mut res = vec![];
    let allocs = fs::read_to_string(&alloc).unwrap_or_default();
    let mut ok = st.success();
    for (k, l) in allocs.lines().enumerate() {
        let f: Vec<u64> = l.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        // The first dump is the warm-up's.
        let t = fs::read_to_string(dir.join(format!("cg.{}", k + 2))).unwrap_or_default();
        let n = t.lines().find_map(|l| l.strip_prefix("totals: ").or(l.strip_prefix("summary: "))).and_then(|x| x.trim().parse::<u64>().ok());
        match n {
            Some(n) => res.push((n, f[1], f[2], f[0] == 1)),
            None => ok = false,
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if st.signal() == Some(libc::SIGXCPU) || st.signal() == Some(libc::SIGKILL) {
        return Ok(None);
    }
    if let Some(s) = st.signal() {
        return Err(format!("ended by signal {}", s));
    }
    if !ok || res.len() != c.texts.len() {
        // The tool, not the parser.
        eprintln!("jsmon: callgrind gave no counts: {:?}, {} of {}", st, res.len(), c.texts.len());
        std::process::exit(2);
    }
    Ok(Some(res))
}

fn growth(c: &Case, o: &mut Obs) -> Result<(), String> {
    let what = |k: usize| -> String {
        let f = &c.texts[3 * k..3 * k + 3];
        format!("{:?} {:?} {:?} ({})", mon::clip(&f[0], 60), mon::clip(&f[1], 120), mon::clip(&f[2], 60), c.kind)
    };
    let m = match measure(c)? {
        Some(m) => m,
        None => {
            return Err(format!(
                "parsing texts of up to {} bytes was not done after 150 s of processor time; among: {}",
                scaled(&c.kind, &c.texts[0], &c.texts[1], &c.texts[2], c.nums[0])[2].len(),
                (0..c.texts.len() / 3).map(what).collect::<Vec<_>>().join(", ")
            ))
        }
    };
    for (k, f) in m.chunks(3).enumerate() {
        for (name, slack, v) in [
            ("instructions executed", 30_000.0, [f[0].0, f[1].0, f[2].0]),
            ("bytes allocated", 65_536.0, [f[0].1, f[1].1, f[2].1]),
            ("allocations made", 512.0, [f[0].2, f[1].2, f[2].2]),
        ] {
            let d1 = (v[1] as f64 - v[0] as f64).max(0.0);
            let d2 = (v[2] as f64 - v[1] as f64).max(0.0);
            if v[0] > 0 && name.starts_with("inst") {
                o.max("hundredths of growth per doubling (linear: 200)", if d1 > slack { (d2 / d1 * 100.0) as u64 } else { 0 });
                o.add("instructions counted", v.iter().sum());
            } else {
                o.add(name, v.iter().sum());
            }
            // The difference leaves what is paid once out of account; the total keeps a family honest whose first member is rejected early.
            if d2 > 2.5 * d1 + slack && v[2] as f64 > 2.25 * v[1] as f64 + slack {
                return Err(format!(
                    "{} when the text doubles, and doubles again: {} -> {} -> {} for {}",
                    name,
                    v[0],
                    v[1],
                    v[2],
                    what(k)
                ));
            }
        }
        o.hit(if f[2].3 { "families accepted" } else { "families rejected" });
    }
    Ok(())
}

/// Operands, what may stand in front of one, and what may stand between two without nesting.
const OPERANDS: [&str; 18] = ["a", "1", "'b'", "`c`", "/d/", "this", "(a)", "[a]", "({})", "f()", "a.b", "a[b]", "new A", "(function(){})", "(class{})", "`${a}`", "(x=>y)", "[{a}]"];
const PREFIXES: [&str; 11] = ["", "!", "-", "~", "+", "typeof ", "void ", "delete ", "!!", "- -", "!~"];
const BETWEEN: [&str; 38] = [
    "+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "!=", "===", "!==", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", " in ", " instanceof ", ",", ";", "\n", "+\n", "\n-", "/**/+", "/*\n*/*", "//\n+", ";;", ";\n",
    "<!", "--\n>", "-->", ".b;", "?b:c,",
];
/// What lexemes and the spaces between them are made of.
const INSIDE: [&str; 38] = [
    "a", "1", "0", "x", "u", "e", "\\", "'", "\"", "`", "$", "${", "{", "}", "[", "]", "(", ")", "/", "*", "<", "!", "-", ">", "=", ".", ",", ";", "\n", "\r", " ", "é", "日", "\u{2028}", "😀", "#", "\t", "|",
];
const WRAPPERS: [(&str, &str); 12] = [
    ("", ""), ("'", "'"), ("\"", "\""), ("`", "`"), ("`${a}", "`"), ("/a", "/"), ("/[", "]/"), ("/*", "*/"), ("//", "\n"), ("a=", ";"), ("/*", ""), ("`", ""),
];
/// Families for a first look, by number.
fn family(i: usize) -> Option<[String; 3]> {
    let (a, b, c) = (OPERANDS.len(), PREFIXES.len(), BETWEEN.len());
    let mut i = i;
    if i < a * b * c {
        let (x, y, z) = (OPERANDS[i % a], PREFIXES[i / a % b], BETWEEN[i / a / b]);
        return Some([String::new(), format!("{}{}{}", y, x, z), "a".to_string()]);
    }
    i -= a * b * c;
    let (a, b) = (INSIDE.len(), WRAPPERS.len());
    if i < a * a * b {
        let w = WRAPPERS[i / a / a];
        return Some([w.0.to_string(), format!("{}{}", INSIDE[i % a], INSIDE[i / a % a]), w.1.to_string()]);
    }
    i -= a * a * b;
    let flat = || SCALES.iter().filter(|f| f.0.is_empty() && f.2.is_empty() && f.1.len() > 1);
    let n = flat().count();
    if i < n * n {
        return Some([String::new(), format!("{}\n{}\n", flat().nth(i % n).unwrap().1, flat().nth(i / n).unwrap().1), String::new()]);
    }
    i -= n * n;
    let wraps: Vec<(&str, &str)> = vec![("x={", "}"), ("[", "]"), ("class A{", "}"), ("var {", "}=c"), ("function f(", "){}"), ("switch(a){", "}"), ("f(", ")"), ("var a", ""), ("`", "`"), ("a", "")];
    let mut all = vec![];
    for w in wraps {
        let of: Vec<&str> = SCALES.iter().filter(|f| f.0 == w.0).map(|f| f.1).collect();
        for x in &of {
            for y in &of {
                all.push([w.0.to_string(), format!("{}{}", x, y), w.1.to_string()]);
            }
        }
    }
    all.into_iter().nth(i)
}
fn families() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| {
        // the last kind is the only one whose number is not plain
        let (mut lo, mut hi) = (0, 1 << 20);
        while lo < hi {
            let m = (lo + hi) / 2;
            if family(m).is_some() { lo = m + 1 } else { hi = m }
        }
        lo
    })
}

/// Nesting families for a first look, by number: opening, middle, closing, and how deep at most.
fn nesting(i: usize) -> Option<([String; 3], u64)> {
    use crate::parsechecks::{EXPR_CTX, OUTER, STMT_CTX};
    let split = |c: &str, m: &str| {
        let at = c.find('§').unwrap();
        (c[..at].to_string(), m.to_string(), c[at + '§'.len_utf8()..].to_string())
    };
    let base: Vec<(String, String, String)> = nests().iter().map(|(a, m, b)| (a.to_string(), m.to_string(), b.to_string())).collect();
    let exprs: Vec<_> = EXPR_CTX.iter().map(|c| split(c, "a")).collect();
    let stmts: Vec<_> = STMT_CTX.iter().chain(OUTER.iter()).filter(|c| !c.contains("export")).map(|c| split(c, "a;")).collect();
    let singles: Vec<_> = base.iter().chain(exprs.iter().skip(1)).chain(stmts.iter()).collect();
    let mut i = i;
    if i < singles.len() {
        let (a, m, b) = singles[i].clone();
        return Some(([a, m, b], 16_000));
    }
    i -= singles.len();
    for set in [&base, &exprs] {
        let n = set.len();
        if i < n * n {
            let (x, y) = (&set[i / n], &set[i % n]);
            return Some(([format!("{}{}", x.0, y.0), y.1.clone(), format!("{}{}", y.2, x.2)], 2_400));
        }
        i -= n * n;
    }
    None
}
fn nestings() -> usize {
    static N: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *N.get_or_init(|| (0..).find(|&i| nesting(i).is_none()).unwrap())
}

/// How many of these are also looked at with other names on every level.
fn named_nestings(t: &Tier) -> usize {
    if t.thorough { nestings() } else { nestings().min(2_000) }
}

/// Measures time and allocations of growing texts of one family in this process; a family that looks worse than linear is measured again with callgrind.
fn look(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (pre, unit, suf) = (&c.texts[0], &c.texts[1], &c.texts[2]);
    let mut last: Option<(u64, u64)> = None;
    let mut suspicious = false;
    let nests = c.kind.starts_with("looked at, nests");
    let named = c.kind == "looked at, nests, different";
    for (round, bytes) in [6_000usize, 24_000, 96_000].into_iter().enumerate() {
        let t = if nests {
            let n = c.nums[0] as usize >> 2 * (2 - round);
            let open = if named { (0..n).map(|i| different(pre, i)).collect() } else { pre.repeat(n) };
            format!("{}{}{}", open, unit, suf.repeat(n))
        } else {
            let times = (bytes / unit.len().max(1) / 24).max(1) * 24;
            let mut t = pre.to_string();
            for i in 0..times {
                if c.kind == "looked at, different" {
                    t.push_str(&different(unit, i));
                } else {
                    t.push_str(unit);
                }
            }
            t.push_str(suf);
            t
        };
        let before = (cpu_ns(), ALLOCATED.with(|a| a.get()).0);
        let ok = jsmon_region(&t);
        let took = (cpu_ns() - before.0, ALLOCATED.with(|a| a.get()).0 - before.1);
        o.add("nanoseconds of first looks", took.0);
        o.add("bytes of first looks", t.len() as u64);
        if let Some(l) = last {
            if took.0 > l.0 * 8 + 3_000_000 || took.1 > l.1 * 6 + 262_144 {
                suspicious = true;
                break;
            }
        }
        last = Some(took);
        if bytes > 90_000 {
            if nests {
                o.max("levels in one text looked at", c.nums[0]);
            }
            o.hit(if ok == 1 { "families looked at, accepted" } else { "families looked at, rejected" });
        }
    }
    if suspicious {
        o.hit("families looked at again");
        let kind = if named { "nests, different" } else if nests { "nests" } else if c.kind == "looked at, different" { "different" } else { "repeats" };
        growth(&Case::with(kind, c.texts.clone(), vec![if nests { c.nums[0] / 8 } else { 20_000 }]), o)?;
    }
    Ok(())
}
fn cpu_ns() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}

pub struct C19;
impl C19 {
    fn groups() -> (u64, u64) {
        (((SCALES.len() + GROUP - 1) / GROUP) as u64, ((nests().len() + GROUP - 1) / GROUP) as u64)
    }
}
impl Check for C19 {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "Families of texts: one construct repeated or lengthened (every kind of lexeme, trivia, list, chain, statement, right-leaning expression, nesting, unterminated tail; and random generated constructs), the repetitions alike or with different names, at three sizes, each twice the one before. The real parser runs under callgrind, which counts the instructions of each parse, and a counting allocator, which counts its allocations; going from the second size to the third may cost at most 2.5 times what going from the first to the second did. One such evaluation measures 6 families (18 parses). Many more families (every operand after every prefix before every separator; every pair of characters inside every kind of lexeme; every pair of statements and of list elements; random constructs; every nesting construct by itself up to 16 000 deep, and every two in turn up to 2 x 2 400 deep, the levels alike or with different names) are first looked at with plain measurements of time and allocation at three sizes up to 96 kB, each four times the one before, and those that look worse than linear are measured as above."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 200_000 } else { 6_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        let (a, b) = C19::groups();
        let f = families() as u64;
        (if t.thorough { 3 * (2 * a + b) + 2 * f } else { 2 * a + b + f }) + (nestings() + named_nestings(t)) as u64
    }
    fn nth(&self, i: u64, t: &Tier) -> Case {
        let (a, b) = C19::groups();
        let full = (2 * a + b) * if t.thorough { 3 } else { 1 };
        if i >= full {
            let i = (i - full) as usize;
            let looks = families() * if t.thorough { 2 } else { 1 };
            if i >= looks {
                let i = i - looks;
                let (f, deepest) = nesting(i % nestings()).unwrap();
                let kind = if i < nestings() || different(&f[0], 1) == f[0] { "looked at, nests" } else { "looked at, nests, different" };
                return Case::with(kind, f.to_vec(), vec![deepest]);
            }
            return Case::with(["looked at", "looked at, different"][i / families()], family(i % families()).unwrap().to_vec(), vec![]);
        }
        let (round, i) = (i / (2 * a + b), i % (2 * a + b));
        let mut texts = vec![];
        if i >= a + b {
            let i = i - a - b;
            for k in 0..GROUP {
                if let Some(f) = SCALES.get((i + k as u64 * a) as usize) {
                    if different(f.1, 1) != f.1 {
                        texts.extend([f.0.to_string(), f.1.to_string(), f.2.to_string()]);
                    }
                }
            }
            if texts.is_empty() {
                texts.extend(["", "a;", ""].map(|x| x.to_string()));
            }
            return Case::with("different", texts, vec![[3_000, 20_000, 8_000][round as usize % 3]]);
        }
        let nest = i >= a;
        let all = if nest { nests() } else { SCALES.to_vec() };
        let i = if nest { i - a } else { i };
        // Spread, so that one group is not slower than the others.
        let g = if nest { b } else { a } as usize;
        for k in 0..GROUP {
            if let Some(f) = all.get(i as usize + k * g) {
                texts.extend([f.0.to_string(), f.1.to_string(), f.2.to_string()]);
            }
        }
        if nest {
            Case::with("nests", texts, vec![[50, 80, 20][round as usize % 3]])
        } else {
            Case::with("repeats", texts, vec![[6_000, 40_000, 15_000][round as usize % 3]])
        }
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        let mut texts = vec![];
        while texts.len() < 3 * GROUP {
            let unit = match r.below(4) {
                0 => {
                    // statements
                    let mut u = work::source(r, 12);
                    u.push_str("\n;\n");
                    u
                }
                1 => gen::soup(r, 6),
                2 => format!("{};", crate::work::lexical(r)),
                _ => {
                    let mut u = work::from_corpus(r);
                    u.push('\n');
                    u
                }
            };
            if unit.is_empty() || unit.len() > 400 {
                continue;
            }
            let (pre, suf) = r.choose(&[("", ""), ("", ""), ("{", "}"), ("function f(){", "}"), ("x=[", "]"), ("'", "'"), ("`", "`"), ("/*", "*/"), ("//", "\n"), ("`${", "}`"), ("(", ")"), ("class A{m(){", "}}")]);
            texts.extend([pre.to_string(), unit, suf.to_string()]);
        }
        // Few are measured exactly.
        if i % 500 != 0 {
            texts.truncate(3);
            return Case::with(r.pick(&["looked at", "looked at, different"]), texts, vec![]);
        }
        Case::with(r.pick(&["repeats", "different"]), texts, vec![6_000])
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial = true;
        for f in c.texts.chunks(3) {
            o.sample(&c.kind, &f.join(" | "));
        }
        if !valgrind() {
            eprintln!("jsmon: no valgrind");
            std::process::exit(2);
        }
        if c.kind.starts_with("looked at") { look(c, o) } else { growth(c, o) }
    }
}

// ---- C20

pub struct C20;

/// What should not matter about a file and about how the program is run on it.
const WAYS: &[&str] = &[
    "ordinarily", "file from the future", "file from before 1970", "executable file", "file with another link", "file of another user", "readable by its owner alone", "setuid file",
    "program by an empty name", "program by the name of another", "directory that is gone", "few open files", "signals blocked", "many open files", "terminal as output", "terminal as input",
    "roundabout path", "path through /proc", "no files may be written", "another umask", "hidden directory", "no core, small locks", "directory not for writing", "signals ignored",
];
const OUTPUTS: &[&str] = &["ordinary", "full", "closed", "pipe without a reader", "file", "not for writing", "full for messages", "closed for messages"];

fn cli() -> PathBuf {
    match std::env::var_os("JSMON_CLI") {
        Some(p) => PathBuf::from(p),
        None => sup::verif_dir().join("work/cli/debug/jsparse"),
    }
}
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let d = sup::verif_dir().join("work").join(format!("cli.{}.{}", std::process::id(), N.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// Bytes are kept in texts by code point, so that a case can be written down.
fn bytes_to_text(b: &[u8]) -> String {
    b.iter().map(|c| *c as char).collect()
}
fn text_to_bytes(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

const NAMES: [&[u8]; 40] = [
    b"a.jsx", b"a.ts", b"a.tsx", b"a.json", b"a.cjs", b"a.min.js", b"a.html", b"a.es6", b"a.d.ts", b"package.json", b"index.js", b"a.gz", b"a.js~", b"A.JS",

    b"a.js", b"a", b"a b.js", b" ", b"-", b"--help", b"-v", b"a.txt", b"a.mjs", b"\xc3\xa9.js", b"\xff\xfe.js", b"'q\"", b"a\nb", b"*", b"$HOME", b"a.js.", b".a.js", b"\xe2\x80\xa8", b"a;b", b"a&b|c", b"%s%n", b"\\", b"~", b"#",
    b"0", b"stdin",
];

/// Whether a process, instead of ending, sleeps without using the processor for three seconds.
fn waits_for_ever(ch: &mut std::process::Child) -> bool {
    let mut last = (String::new(), Instant::now());
    let mut pause = 500;
    loop {
        match ch.try_wait() {
            Ok(None) => {}
            _ => return false,
        }
        let stat = fs::read_to_string(format!("/proc/{}/stat", ch.id())).unwrap_or_default();
        let w: Vec<&str> = stat.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        // state, and the two times
        let now = if w.len() > 12 && w[0] == "S" { format!("{} {}", w[11], w[12]) } else { format!("{:?}", Instant::now()) };
        if now != last.0 {
            last = (now, Instant::now());
        } else if last.1.elapsed() > Duration::from_secs(3) {
            return true;
        }
        std::thread::sleep(Duration::from_micros(pause));
        pause = (pause * 2).min(50_000);
    }
}

impl C20 {
    fn content(r: &mut Rng) -> Vec<u8> {
        if r.one_in(25) {
            // fine text, but in another encoding
            let t = match r.below(4) {
                0 => work::source(r, 30),
                1 => work::any(r, 30).1,
                _ => (r.choose(&["a;", "", "a", "var é = '日本';", "/* ÿþ */", "'ÿ'", "x=1\n", "\u{FEFF}a;", "'😀'"])).to_string(),
            };
            let wide: Vec<u16> = t.encode_utf16().collect();
            return match r.below(9) {
                0 => [&b"\xff\xfe"[..], &wide.iter().flat_map(|u| u.to_le_bytes()).collect::<Vec<_>>()].concat(),
                1 => [&b"\xfe\xff"[..], &wide.iter().flat_map(|u| u.to_be_bytes()).collect::<Vec<_>>()].concat(),
                2 => wide.iter().flat_map(|u| u.to_le_bytes()).collect(),
                3 => wide.iter().flat_map(|u| u.to_be_bytes()).collect(),
                4 => [&b"\xff\xfe\0\0"[..], &t.chars().flat_map(|c| (c as u32).to_le_bytes()).collect::<Vec<_>>()].concat(),
                5 => t.chars().map(|c| if (c as u32) < 256 { c as u8 } else { b'?' }).collect(),
                // every surrogate by itself
                6 => wide.iter().flat_map(|&u| match u {
                    0..=0x7F => vec![u as u8],
                    0x80..=0x7FF => vec![0xC0 | (u >> 6) as u8, 0x80 | (u & 63) as u8],
                    _ => vec![0xE0 | (u >> 12) as u8, 0x80 | (u >> 6 & 63) as u8, 0x80 | (u & 63) as u8],
                }).collect(),
                // two bytes where one is enough
                7 => t.bytes().flat_map(|b| if b < 0x80 && (b == 0 || !b.is_ascii_alphanumeric()) { vec![0xC0 | b >> 6, 0x80 | b & 63] } else { vec![b] }).collect(),
                // compressed
                _ => [&b"\x1f\x8b\x08\0\0\0\0\0\0\x03"[..], t.as_bytes()].concat(),
            };
        }
        if r.one_in(12) {
            // Exactly so many lines, bytes, characters or tokens, of which an exit status may keep the last eight bits.
            let n = match crate::novel::num(r, 2, 100_000) {
                Some(n) => n,
                None => r.choose(&[255, 256, 256, 257, 511, 512, 512, 513, 768, 1024, 1280, 4096, 65536]),
            };
            let (unit, each) = r.choose(&[("\n", 1), ("a\n", 1), ("a;\n", 1), ("x=1\n", 1), (";", 1), ("'é';", 4), ("a,", 2), ("a ", 1), ("é", 1), ("//a\n", 1), ("a;\n", 2), ("a;\n", 3), ("f()\n", 3), ("f()\n", 4)]);
            let mut t = unit.repeat((n + r.below(3) - 1) / each);
            match r.below(4) {
                0 => t.insert(0, ')'),
                1 => t.push(')'),
                2 => {
                    t.pop();
                    t.push(')');
                }
                _ => {}
            }
            return t.into_bytes();
        }
        if r.one_in(20) {
            // Nested as deep as any program a tool writes; far from what the stack can take.
            let n = crate::parsechecks::NESTS.len();
            let mut t = crate::parsechecks::nest(r.below(n), r.range(50, 250));
            match r.below(4) {
                0 => {
                    t.pop();
                }
                1 => t.push_str(r.choose(&[")", "]", "}", "'", ";a"])),
                _ => {}
            }
            return t.into_bytes();
        }
        if r.one_in(10) {
            // One token, or one before something that is fine or not.
            let t = gen::pool(r).to_string();
            return match r.below(4) {
                0 => t,
                1 => format!("{}\n", t),
                2 => format!("{} {}", t, gen::pool(r)),
                _ => format!("{} {}", t, work::source(r, 10)),
            }
            .into_bytes();
        }
        let mut b = match r.below(10) {
            0..=2 => work::source(r, 40).into_bytes(),
            3..=5 => work::any(r, 40).1.into_bytes(),
            6 if r.one_in(5) => {
                // A big file, whose end decides.
                let k = r.range(17, 22);
                let n = (1usize << k) + r.choose(&[0, 1, 2, 100, 70_000, 500_000]) - r.below(3);
                let (pre, unit, post) = r.choose(&[("/*", "é * ", "*/"), ("/*\n", "some words\n", "*/"), ("a", " ", "=1"), ("'", "0123456789abcdef", "'"), ("b", "\n", "\n"), ("//", "日本", "\n"), ("`", "\n$ ", "`")]);
                let mut s = String::from(pre);
                while s.len() + unit.len() + post.len() <= n {
                    s.push_str(unit);
                }
                s.push_str(post);
                s.push_str(r.choose(&["", "", ";a", ")", "'", "\\", ";)"]));
                s.into_bytes()
            }
            6 => work::from_corpus(r).into_bytes(),
            7 => (r.choose(&["", "\n", " ", "\u{FEFF}", "\u{FEFF}var a;", "a", "#!/bin/sh\n", "\0", "a\0b", ")", "'", "a;\u{1A}", "\r\n", "//"])).as_bytes().to_vec(),
            _ => {
                // a size around a buffer's
                let at = crate::novel::num(r, 2, 20_000_000).map(|n| n.saturating_sub(r.below(3)));
                let at = if let Some(n) = at { n } else { r.choose(&[1usize, 31, 32, 33, 1024, 4096, 8192, 16384, 65536, 131072]) };
                let n = (at + r.below(5)).saturating_sub(2);
                let mut s = String::new();
                let unit = r.choose(&["a;\n", "a=1;", "'é';\n", "/*日*/", "f(x)\n", " ", "\n"]);
                while s.len() + unit.len() <= n {
                    s.push_str(unit);
                }
                while s.len() < n {
                    s.push(' ');
                }
                // something wrong at the very end, or in the middle
                match r.below(4) {
                    0 => {
                        s.pop();
                        s.push(')');
                    }
                    1 => s.push_str("'\\"),
                    _ => {}
                }
                s.into_bytes()
            }
        };
        if r.one_in(6) {
            // not UTF-8, somewhere
            let bad: &[u8] = r.choose(&[&b"\xff"[..], b"\xc3", b"\xe2\x80", b"\xf0\x9f\x98", b"\x80", b"\xed\xa0\x80", b"\xc0\xaf", b"\xf5\x80\x80\x80"]);
            let at = match r.below(3) {
                0 => b.len(),
                1 => 0,
                _ => r.below(b.len() + 1),
            };
            let (pre, post): (&[u8], &[u8]) = if r.one_in(2) { (b"/*", b"*/") } else { (b"", b"") };
            let mut x = b[..at].to_vec();
            x.extend_from_slice(pre);
            x.extend_from_slice(bad);
            x.extend_from_slice(post);
            x.extend_from_slice(&b[at..]);
            b = x;
        }
        b
    }
}
impl Check for C20 {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "The real command-line program, built from the working tree, run in a scratch directory on random files (valid, damaged, empty, around buffer sizes, of 256 and as many lines, bytes or tokens, of megabytes, nested up to 250 deep in 44 ways, not UTF-8) under ordinary and odd names (spaces, option-like, not UTF-8), by relative and absolute path, through symbolic links and pipes, with nothing, rubbish, other programs, a standard input that never ends or none, with output streams that are full, closed, or without a reader, with files of any age, mode and owner, in 23 other ways (other program names, signal masks, limits, terminals, roundabout paths, ...), with other environment variables, and without an argument; on texts in other encodings; on missing files, directories, sockets, links that lead nowhere, paths through files, files without permission (as another user), files with read errors, files whose size is not known. Exit status and messages are compared with the library's verdict on the content, and the file with what it was. Non-trivial: the content has at least three bytes."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 100_000 } else { 5_000 }
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        if i % 500 == 77 {
            // Far more than any buffer, and what comes last decides.
            let (pre, unit, suf) = r.choose(&[("/*", " ", "*/"), ("a", " ", "=1;"), ("", " ", ""), ("'", "0123456789abcdef", "'"), ("//", "日本語", "\n"), ("/*\n", "some words\n", "*/"), ("`", "\n$ ", "`")]);
            let end = r.choose(&["", ")", "'", ";a", "\\"]);
            let size = (1u64 << r.range(24, 25)) + r.choose(&[0, 1, 100, 70_000]);
            return Case::with("file", vec![String::new(), "a.js".into(), String::new(), pre.into(), unit.into(), format!("{}{}", suf, end)], vec![0, r.below(4) as u64, size / unit.len() as u64]);
        }
        let kind = match r.below(20) {
            0 => "missing file",
            1 => "directory",
            2 => "no argument",
            3 => "pipe",
            4 => r.pick(&["dangling link", "link to itself", "path through a file", "name too long", "empty name", "socket", "no permission", "read error", "nothing", "standard input by name", "size not known"]),
            _ => "file",
        };
        let name = if r.one_in(2) { b"a.js".to_vec() } else { r.pick(&NAMES).to_vec() };
        let name = match crate::novel::word(r, 3).filter(|w| w.len() < 100 && !w.contains(['/', '\0']) && w != "." && w != "..") {
            Some(w) => format!("{}{}{}", r.pick(&["", "", "a", "."]), w, r.pick(&["", "", ".js"])).into_bytes(),
            None => name,
        };
        let content = C20::content(r);
        let stdin = match r.below(5) {
            0 => bytes_to_text(work::source(r, 10).as_bytes()),
            1 => ")".into(),
            _ => String::new(),
        };
        // where the output goes
        let out = if r.one_in(3) { r.range(1, OUTPUTS.len() - 1) as u64 } else { 0 };
        Case::with(kind, vec![bytes_to_text(&content), bytes_to_text(&name), stdin], vec![r.below(6) as u64, r.below(4) as u64, out, if r.one_in(2) { r.below(WAYS.len()) as u64 } else { 0 }])
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let scratch = Scratch::new();
        let dir = scratch.0.join("d");
        fs::create_dir(&dir).unwrap();
        let content = if c.texts.len() > 3 {
            let t = work::build_huge(&c.texts[3..], c.nums[2]);
            o.hit("files of more than 16 MiB");
            o.max("bytes in one file", t.len() as u64);
            t.into_bytes()
        } else {
            text_to_bytes(&c.texts[0])
        };
        let name = std::ffi::OsString::from_vec(text_to_bytes(&c.texts[1]));
        let path = dir.join(&name);
        o.nontrivial = content.len() >= 3;
        let mut nobody = false;
        let mut feed: Option<Vec<u8>> = None;
        let mut _open = None;
        o.hit(&format!("runs: {}", c.kind));
        let start = |program: &Path| {
            let mut cmd = Command::new(program);
            cmd.current_dir(&dir).env_clear().env("RUST_BACKTRACE", if c.nums[1] == 1 { "1" } else { "0" });
            cmd.stdout(Stdio::null()).stderr(Stdio::piped());
            unsafe {
                cmd.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: 20, rlim_max: 25 };
                    libc::setrlimit(libc::RLIMIT_CPU, &l);
                    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &l);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            cmd
        };
        let mut cmd = start(cli().as_ref());
        let by = |base: &Path| -> std::ffi::OsString {
            match c.nums[1] {
                0 => base.as_os_str().to_owned(),
                2 => {
                    let mut s = std::ffi::OsString::from("../d/");
                    s.push(base.file_name().unwrap());
                    s
                }
                _ => base.file_name().unwrap().to_owned(),
            }
        };
        let mut want = false;
        let mut watched: Option<PathBuf> = None;
        let mut feeder = None;
        let mut _held = None;
        match c.kind.as_str() {
            "missing file" => {
                // a neighbour that is fine
                let mut n = name.clone();
                n.push("x");
                fs::write(dir.join(n), "a;").unwrap();
                cmd.arg(by(&path));
            }
            "directory" => {
                fs::create_dir(&path).unwrap();
                fs::write(path.join("index.js"), "a;").unwrap();
                cmd.arg(by(&path));
            }
            "no argument" => {}
            "dangling link" => {
                std::os::unix::fs::symlink("gone.js", &path).unwrap();
                cmd.arg(by(&path));
            }
            "link to itself" => {
                std::os::unix::fs::symlink(&name, &path).unwrap();
                cmd.arg(by(&path));
            }
            "path through a file" => {
                fs::write(&path, "a;").unwrap();
                cmd.arg(path.join(r"b.js"));
            }
            "name too long" => {
                fs::write(&path, "a;").unwrap();
                cmd.arg("a".repeat(300));
            }
            "empty name" => {
                fs::write(&path, "a;").unwrap();
                cmd.arg("");
            }
            "socket" => {
                // The name of a socket must be short.
                let here = dir.join("s");
                match std::os::unix::net::UnixListener::bind(&here) {
                    Ok(l) => _open = Some(l),
                    Err(_) => {
                        o.hit("no sockets here");
                        return Ok(());
                    }
                }
                cmd.arg(&here);
            }
            "no permission" => {
                let bin = match fs::read(cli()) {
                    Ok(b) => b,
                    Err(e) => {
                        eprintln!("jsmon: {}: {}", cli().display(), e);
                        std::process::exit(2);
                    }
                };
                let copy = scratch.0.join("jsparse");
                fs::write(&copy, bin).unwrap();
                let mode = |p: &Path, m| fs::set_permissions(p, std::os::unix::fs::PermissionsExt::from_mode(m)).unwrap();
                mode(&copy, 0o755);
                fs::write(&path, &content).unwrap();
                // The same file, not readable and then readable by anyone.
                mode(&path, if c.nums[0] % 2 == 0 { 0o000 } else { 0o644 });
                want = c.nums[0] % 2 == 1 && library(&content);
                cmd = start(&copy);
                cmd.arg(by(&path));
                nobody = true;
            }
            "read error" => {
                cmd.arg("/proc/self/mem");
            }
            "nothing" => {
                cmd.arg("/dev/null");
                want = library(b"");
            }
            "size not known" => {
                // A file whose size is given as 0: the name of the program.
                let n = cli().file_name().unwrap().to_os_string().into_vec();
                let n = [&n[..n.len().min(15)], b"\n"].concat();
                cmd.arg("/proc/self/comm");
                want = library(&n);
            }
            "standard input by name" => {
                cmd.arg("/proc/self/fd/0");
                feed = Some(content.clone());
                want = library(&content);
            }
            "pipe" => {
                let p = dir.join("fifo");
                let cp = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
                if unsafe { libc::mkfifo(cp.as_ptr(), 0o600) } != 0 {
                    o.hit("no pipes here");
                    return Ok(());
                }
                cmd.arg(by(&p));
                let (p2, b) = (p.clone(), content.clone());
                feeder = Some(move || {
                    std::thread::spawn(move || {
                        // Blocks until the program opens it; the program may well not read it all.
                        for _ in 0..2000 {
                            let f = std::fs::OpenOptions::new().write(true).custom_flags_nonblock().open(&p2);
                            if let Ok(mut f) = f {
                                set_blocking(&f);
                                for part in b.chunks(if b.len() < 300 { [1, 2, 3000][b.len() % 3] } else { 3000 }) {
                                    if f.write_all(part).is_err() {
                                        return;
                                    }
                                    std::thread::yield_now();
                                }
                                return;
                            }
                            std::thread::sleep(Duration::from_millis(1));
                        }
                    })
                });
                want = library(&content);
            }
            _ => {
                let real = if c.nums[1] == 3 {
                    let t = dir.join("target of link");
                    std::os::unix::fs::symlink("target of link", &path).unwrap();
                    t
                } else {
                    path.clone()
                };
                fs::write(&real, &content).unwrap();
                if c.nums[0] == 1 {
                    let mut p = fs::metadata(&real).unwrap().permissions();
                    std::os::unix::fs::PermissionsExt::set_mode(&mut p, 0o444);
                    fs::set_permissions(&real, p).unwrap();
                }
                cmd.arg(by(&path));
                watched = Some(real);
                want = library(&content);
            }
        }
        let way = if c.texts.len() > 3 { "ordinarily" } else { WAYS.get(c.nums.get(3).copied().unwrap_or(0) as usize).copied().unwrap_or("ordinarily") };
        let way = if c.kind == "file" { way } else { "ordinarily" };
        let mut links = 0;
        let mut keep: Vec<fs::File> = vec![];
        if let Some(p) = &watched {
            use std::os::unix::fs::PermissionsExt;
            use std::os::unix::process::CommandExt;
            let cp = std::ffi::CString::new(p.as_os_str().as_bytes()).unwrap();
            let at = |sec: i64| {
                let t = libc::timespec { tv_sec: sec, tv_nsec: 5 };
                unsafe { libc::utimensat(libc::AT_FDCWD, cp.as_ptr(), [t, t].as_ptr(), 0) };
            };
            let mode = |m| {
                let _ = fs::set_permissions(p, fs::Permissions::from_mode(m));
            };
            o.hit(&format!("run: {}", way));
            match way {
                "file from the future" => at(4_102_444_800),
                "file from before 1970" => at(-300_000_000),
                "executable file" => mode(0o755),
                "readable by its owner alone" => mode(0o400),
                "setuid file" => mode(0o6755),
                "file with another link" => {
                    let _ = fs::hard_link(p, dir.join("other link"));
                    links = 1;
                }
                "file of another user" => {
                    unsafe { libc::chown(cp.as_ptr(), 65534, 65534) };
                }
                "program by an empty name" => {
                    cmd.arg0("");
                }
                "program by the name of another" => {
                    cmd.arg0(["-jsparse", "node", "jsparse --check", "/bin/sh", "cat"][content.len() % 5]);
                }
                "directory that is gone" => {
                    let gone = scratch.0.join("gone");
                    let here = std::ffi::CString::new(gone.as_os_str().as_bytes()).unwrap();
                    let _ = fs::create_dir(&gone);
                    // by its whole name, which is all that is left
                    cmd = start(cli().as_ref());
                    cmd.arg(&path).current_dir(&gone);
                    unsafe {
                        cmd.pre_exec(move || {
                            libc::rmdir(here.as_ptr());
                            Ok(())
                        });
                    }
                }
                "few open files" => unsafe {
                    cmd.pre_exec(|| {
                        let l = libc::rlimit { rlim_cur: 12, rlim_max: 12 };
                        libc::setrlimit(libc::RLIMIT_NOFILE, &l);
                        Ok(())
                    });
                },
                "no files may be written" => unsafe {
                    cmd.pre_exec(|| {
                        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
                        Ok(())
                    });
                },
                "no core, small locks" => unsafe {
                    cmd.pre_exec(|| {
                        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                        libc::setrlimit(libc::RLIMIT_MEMLOCK, &l);
                        libc::setrlimit(libc::RLIMIT_MSGQUEUE, &l);
                        libc::nice(5);
                        Ok(())
                    });
                },
                "signals blocked" => unsafe {
                    cmd.pre_exec(|| {
                        let mut all: libc::sigset_t = std::mem::zeroed();
                        libc::sigfillset(&mut all);
                        libc::sigprocmask(libc::SIG_SETMASK, &all, std::ptr::null_mut());
                        Ok(())
                    });
                },
                "signals ignored" => unsafe {
                    cmd.pre_exec(|| {
                        for n in [libc::SIGHUP, libc::SIGINT, libc::SIGQUIT, libc::SIGUSR1, libc::SIGALRM, libc::SIGTERM, libc::SIGCHLD] {
                            libc::signal(n, libc::SIG_IGN);
                        }
                        Ok(())
                    });
                },
                "many open files" => {
                    for _ in 0..40 {
                        if let Ok(f) = fs::File::open("/dev/null") {
                            use std::os::fd::AsRawFd;
                            let fd = f.as_raw_fd();
                            keep.push(f);
                            unsafe {
                                cmd.pre_exec(move || {
                                    libc::fcntl(fd, libc::F_SETFD, 0);
                                    Ok(())
                                });
                            }
                        }
                    }
                }
                "another umask" => unsafe {
                    cmd.pre_exec(|| {
                        libc::umask(0o777);
                        Ok(())
                    });
                },
                "directory not for writing" => {
                    let _ = fs::set_permissions(&dir, fs::Permissions::from_mode(0o555));
                }
                "roundabout path" | "path through /proc" | "hidden directory" => {
                    let mut s = std::ffi::OsString::new();
                    match way {
                        "roundabout path" => s.push("./".repeat(1 + content.len() % 1900)),
                        "path through /proc" => s.push("/proc/self/cwd/"),
                        _ => {
                            let _ = std::os::unix::fs::symlink("d", scratch.0.join(".git"));
                            s.push("../.git/");
                        }
                    }
                    s.push(path.file_name().unwrap());
                    cmd = start(cli().as_ref());
                    cmd.arg(s);
                }
                _ => {}
            }
        }
        let before = watched.as_ref().map(|p| fs::symlink_metadata(p).unwrap());
        let feed_stdin = c.nums[0] >= 2 && c.nums[0] < 5 || feed.is_some();
        if nobody {
            unsafe {
                cmd.pre_exec(|| {
                    let none: [libc::gid_t; 0] = [];
                    if libc::setgroups(0, none.as_ptr()) != 0 || libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        }
        if c.nums[0] == 5 && !feed_stdin {
            cmd.stdin(Stdio::null());
            unsafe {
                cmd.pre_exec(|| {
                    libc::close(0);
                    Ok(())
                });
            }
        } else if feed_stdin {
            cmd.stdin(Stdio::piped());
        } else {
            cmd.stdin(Stdio::null());
        }
        if let "terminal as output" | "terminal as input" = way {
            if watched.is_some() {
                match terminal() {
                    Some((ours, theirs)) => {
                        keep.push(ours);
                        if way == "terminal as output" {
                            cmd.stdout(theirs);
                        } else if !feed_stdin {
                            cmd.stdin(theirs);
                        }
                    }
                    None => o.hit("no terminals here"),
                }
            }
        }
        for (n, (k, v)) in SURROUNDINGS.iter().enumerate() {
            if (content.len() + name.len() * 5) >> (n % 6) & 1 == 1 {
                cmd.env(k, v);
            }
        }
        for w in crate::novel::words().iter().filter(|w| !w.contains(['=', '\0'])) {
            if (content.len() + w.len()) % 3 != 0 {
                cmd.env(w, ["1", "0", "", "true", "/etc/hostname"][(content.len() + name.len()) % 5]);
            }
        }
        // What the program prints by the way may go nowhere; so may its message, which is then not asked for.
        let outlet = if c.texts.len() > 3 { "ordinary" } else { OUTPUTS.get(c.nums.get(2).copied().unwrap_or(0) as usize).copied().unwrap_or("ordinary") };
        let full = || std::fs::OpenOptions::new().write(true).open("/dev/full").map(Stdio::from).unwrap_or_else(|_| Stdio::null());
        let outlet = if way == "no files may be written" && outlet == "file" { "ordinary" } else { outlet };
        let mut unheard = false;
        o.hit(&format!("output: {}", outlet));
        match outlet {
            "full" => {
                cmd.stdout(full());
            }
            "closed" => unsafe {
                cmd.pre_exec(|| {
                    libc::close(1);
                    Ok(())
                });
            },
            "pipe without a reader" => {
                let mut ends = [0i32; 2];
                if unsafe { libc::pipe2(ends.as_mut_ptr(), libc::O_CLOEXEC) } == 0 {
                    use std::os::fd::FromRawFd;
                    unsafe { libc::close(ends[0]) };
                    cmd.stdout(unsafe { Stdio::from_raw_fd(ends[1]) });
                }
            }
            "file" => {
                if let Ok(f) = fs::File::create(scratch.0.join("out")) {
                    cmd.stdout(f);
                }
            }
            "not for writing" => {
                if let Ok(f) = fs::File::open("/dev/null") {
                    cmd.stdout(f);
                }
            }
            "full for messages" => {
                cmd.stderr(full());
                unheard = true;
            }
            "closed for messages" => {
                unheard = true;
                unsafe {
                    cmd.pre_exec(|| {
                        libc::close(2);
                        Ok(())
                    });
                }
            }
            _ => {}
        }
        let mut ch = match cmd.spawn() {
            Ok(c) => c,
            Err(_) if nobody => {
                o.hit("no other user here");
                return Ok(());
            }
            Err(e) => {
                eprintln!("jsmon: {}: {}", cli().display(), e);
                std::process::exit(2);
            }
        };
        let feeder = feeder.map(|f| f());
        if feed_stdin {
            let mut i = ch.stdin.take().unwrap();
            let _ = i.write_all(feed.as_deref().unwrap_or(c.texts[2].as_bytes()));
            if feed.is_none() && c.nums[0] == 3 {
                // and it stays open
                _held = Some(i);
            }
        }
        let messages = ch.stderr.take();
        let messages = std::thread::spawn(move || {
            let mut b = vec![];
            if let Some(mut m) = messages {
                let _ = m.read_to_end(&mut b);
            }
            b
        });
        if _held.is_some() && waits_for_ever(&mut ch) {
            let _ = ch.kill();
            let _ = ch.wait();
            let _ = messages.join();
            return Err(format!("waits for standard input: {} named {:?}, content {:?}", c.kind, name, mon::clip(&String::from_utf8_lossy(&content), 200)));
        }
        let mut out = ch.wait_with_output().unwrap();
        out.stderr = messages.join().unwrap_or_default();
        if let Some(f) = feeder {
            let _ = f.join();
        }
        let what = || format!("{} named {:?}, run {}, output {}, content {:?}", c.kind, name, way, outlet, mon::clip(&String::from_utf8_lossy(&content), 200));
        if let Some(s) = out.status.signal() {
            return Err(format!("ended by signal {}: {}", s, what()));
        }
        let ok = out.status.success();
        o.hit(if ok { "successes" } else { "failures" });
        o.sample(&c.kind, &mon::clip(&String::from_utf8_lossy(&content[..content.len().min(4000)]), 1000));
        if ok != want {
            return Err(format!("exit status {} where {} is due: {}", out.status, if want { "success" } else { "failure" }, what()));
        }
        if !ok && out.stderr.is_empty() && !unheard {
            return Err(format!("failed without a message on standard error: {}", what()));
        }
        if let (Some(p), Some(m)) = (&watched, &before) {
            let now = fs::symlink_metadata(p).map_err(|e| format!("the file is gone ({}): {}", e, what()))?;
            use std::os::unix::fs::MetadataExt;
            if fs::read(p).ok().as_deref() != Some(&content[..]) || now.mtime_nsec() != m.mtime_nsec() || now.mtime() != m.mtime() || now.mode() != m.mode() || now.ino() != m.ino() {
                return Err(format!("the file was changed: {}", what()));
            }
            let n = fs::read_dir(&dir).unwrap().count();
            if n != links + if c.nums[1] == 3 { 2 } else { 1 } {
                return Err(format!("the program left something in its directory: {}", what()));
            }
        }
        Ok(())
    }
}
/// Both ends of a terminal.
fn terminal() -> Option<(fs::File, fs::File)> {
    use std::os::fd::FromRawFd;
    unsafe {
        let m = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if m < 0 {
            return None;
        }
        let ours = fs::File::from_raw_fd(m);
        if libc::grantpt(m) != 0 || libc::unlockpt(m) != 0 {
            return None;
        }
        let mut name = [0 as libc::c_char; 64];
        if libc::ptsname_r(m, name.as_mut_ptr(), name.len()) != 0 {
            return None;
        }
        let t = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if t < 0 {
            return None;
        }
        Some((ours, fs::File::from_raw_fd(t)))
    }
}
trait NonBlock {
    fn custom_flags_nonblock(&mut self) -> &mut Self;
}
impl NonBlock for std::fs::OpenOptions {
    fn custom_flags_nonblock(&mut self) -> &mut Self {
        use std::os::unix::fs::OpenOptionsExt;
        self.custom_flags(libc::O_NONBLOCK)
    }
}
fn set_blocking(f: &std::fs::File) {
    use std::os::fd::AsRawFd;
    unsafe {
        let fl = libc::fcntl(f.as_raw_fd(), libc::F_GETFL);
        libc::fcntl(f.as_raw_fd(), libc::F_SETFL, fl & !libc::O_NONBLOCK);
    }
}
fn library(content: &[u8]) -> bool {
    match std::str::from_utf8(content) {
        Ok(t) => mon::plain(t).accepted(),
        Err(_) => false,
    }
}

// ---- C21

pub struct C21;

fn payloads<'a, 'c>(t: &'a Token<'c>) -> Vec<(&'static str, &'a Cow<'c, str>)> {
    match t {
        Token::Comment(c) => vec![("comment text", &c.value)],
        Token::RegularExpressionLiteral(r) => vec![("pattern", &r.pattern), ("flags", &r.flags)],
        Token::IdentifierName(n) => vec![("name", &n.name)],
        Token::StringLiteral(s) => vec![("string text", &s.value)],
        Token::Template(t) => vec![("raw text", &t.raw), ("cooked text", &t.cooked)],
        _ => vec![],
    }
}

/// Text carried by a token: UTF-8, and if borrowed the caller's, from the token's own place.
fn carried(text: &str, ev: &Ev, o: &mut Obs) -> Result<(), String> {
    for (what, p) in payloads(&ev.tok) {
        // What claims to be text need not be.
        let bytes: &[u8] = p.as_bytes();
        let bytes = std::hint::black_box(bytes);
        if std::str::from_utf8(bytes).is_err() {
            return Err(format!("the {} of a {} is not UTF-8: {:?}", what, mon::kind_name(&ev.tok), bytes.iter().take(60).collect::<Vec<_>>()));
        }
        let mut sum = 0u64;
        for b in bytes {
            sum = sum.wrapping_add(*b as u64);
        }
        std::hint::black_box(sum);
        match p {
            Cow::Borrowed(s) => {
                if !cfg!(miri) {
                    o.hit("borrowed texts");
                }
                let base = text.as_ptr() as usize;
                let at = s.as_ptr() as usize;
                let (lo, hi) = (base + ev.range.start.offset.min(text.len()), base + ev.range.end.offset.min(text.len()));
                if s.is_empty() {
                    continue;
                }
                if at < lo || at + s.len() > hi {
                    return Err(format!(
                        "the borrowed {} of a {} at {}..{} lies at {}..{} of the text of {} bytes",
                        what,
                        mon::kind_name(&ev.tok),
                        ev.range.start.offset,
                        ev.range.end.offset,
                        (at as i128 - base as i128),
                        (at as i128 - base as i128) + s.len() as i128,
                        text.len()
                    ));
                }
            }
            Cow::Owned(_) if cfg!(miri) => {}
            Cow::Owned(_) => o.hit("owned texts"),
        }
    }
    Ok(())
}

/// One case, wherever it runs: natively, under AddressSanitizer, under Miri.
pub fn memory(source: &str, seed: u64, o: &mut Obs) -> Result<(), String> {
    // Memory of exactly the text's size, so that what reads beyond it can be noticed.
    let own: Box<str> = source.into();
    let text: &str = &own;
    let run = mon::run(text);
    if let Verdict::Fault(m) = &run.verdict {
        return Err(format!("parsing ended in a fault: {}", m));
    }
    for ev in &run.ev {
        carried(text, ev, o)?;
    }
    o.add("tokens of parses", run.ev.len() as u64);
    let mut n = 0;
    let mut kept: Vec<Ev> = vec![];
    crate::lexchecks::drive(text, seed, |s| {
        n += 1;
        match &s.answer {
            Ok(ev) => {
                carried(text, ev, o)?;
                if kept.len() < 64 {
                    kept.push(ev.clone());
                }
                Ok(true)
            }
            Err(Verdict::Fault(m)) => Err(format!("the tokenizer ended in a fault: {}", m)),
            Err(_) => Ok(true),
        }
    })?;
    // Tokens stay valid as long as the text does.
    for ev in &kept {
        carried(text, ev, o)?;
    }
    o.add("tokens of direct reads", n);
    if n >= 3 {
        o.nontrivial = true;
    }
    Ok(())
}

impl Check for C21 {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "Random texts of every kind, and texts cut at every place with what may be read beyond them missing, in heap blocks of exactly their size, parsed and read token by token under AddressSanitizer with the standard library's checks of unsafe preconditions on; also from several threads. The text of every token is read and validated, and if borrowed its address compared with the token's range. Smaller workloads, with threads and with one of everything that can be long at lengths up to thousands, run under Miri and under Valgrind's memcheck, whose complaints of undefined values Miri has to share. Non-trivial: at least three tokens."
    }
    fn random(&self, t: &Tier) -> u64 {
        if t.thorough { 4_000_000 } else { 150_000 }
    }
    fn enumerated(&self, t: &Tier) -> u64 {
        let all: u64 = work::corpus().iter().map(|c| c.chars().count() as u64 + 1).sum();
        let _ = t;
        all
    }
    fn nth(&self, i: u64, _t: &Tier) -> Case {
        // the corpus, cut everywhere
        let mut i = i;
        for c in work::corpus() {
            let n = c.chars().count() as u64 + 1;
            if i < n {
                let t: String = c.chars().take(i as usize).collect();
                return Case::with("cut", vec![t], vec![i]);
            }
            i -= n;
        }
        unreachable!()
    }
    fn gen(&self, r: &mut Rng, i: u64) -> Case {
        let t = match r.below(4) {
            0 => work::lexical(r),
            1 => {
                let s = work::lexical(r);
                let cs: Vec<char> = s.chars().collect();
                cs[..r.below(cs.len() + 1)].iter().collect()
            }
            2 => gen::soup(r, 60),
            _ => work::any(r, 40).1,
        };
        Case::with(if i % 50 == 0 { "threads" } else { "text" }, vec![t], vec![r.next() >> 16])
    }
    fn shrinks(&self, c: &Case) -> bool {
        c.kind != "threads"
    }
    fn eval(&self, c: &Case, o: &mut Obs) -> Result<(), String> {
        let text = c.text();
        o.sample("text", text);
        o.hit(&format!("cases: {}", c.kind));
        if c.kind == "miri" {
            return match miri_run(&[text.to_string()], 60, "replay") {
                MiriEnd::Found(m, _) => Err(m),
                MiriEnd::Done { .. } => Ok(()),
                MiriEnd::Unclear(m) => {
                    eprintln!("jsmon: {}", m);
                    std::process::exit(2)
                }
            };
        }
        if c.kind == "memcheck" {
            return match memcheck_run(&[text.to_string()], 60, "replay") {
                Some(MiriEnd::Found(m, _)) => Err(m),
                _ => Ok(()),
            };
        }
        memory(text, c.nums[0], o)?;
        if c.kind == "threads" {
            let own: Box<str> = text.into();
            let res: Vec<Result<(), String>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..3u64)
                    .map(|k| {
                        let own = &own;
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || memory(own, c.nums[0] ^ k, &mut Obs::default())).unwrap()
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or(Err("a thread failed".into()))).collect()
            });
            for r in res {
                r?;
            }
        }
        Ok(())
    }
}

/// Under Miri: texts from a file, one a line, for as long as the time lasts.
pub fn miri_main(file: &str, secs: u64) -> i32 {
    let start = Instant::now();
    let mut o = Obs::default();
    let all = fs::read_to_string(file).unwrap();
    let mut n = 0u64;
    for line in all.lines() {
        if start.elapsed() > Duration::from_secs(secs) {
            break;
        }
        let t = match crate::case::unescape(line) {
            Some(t) => t,
            None => continue,
        };
        println!("MIRI CASE {}", line);
        if let Err(m) = memory(&t, n, &mut o) {
            println!("MIRI FOUND {}", crate::case::escape(&m));
            return 1;
        }
        if n % 8 == 0 {
            let bad = std::thread::scope(|s| {
                let hs: Vec<_> = (0..2u64)
                    .map(|k| {
                        let t = &t;
                        s.spawn(move || memory(t, n ^ k, &mut Obs::default()).err())
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("a thread failed".into()))).next()
            });
            if let Some(m) = bad {
                println!("MIRI FOUND {}", crate::case::escape(&m));
                return 1;
            }
            o.hit("cases with two threads");
        }
        n += 1;
    }
    println!("MIRI DONE {} {}", n, o.counts.iter().filter(|(k, _)| k.starts_with("tokens")).map(|(_, v)| v).sum::<u64>());
    0
}

fn miri_text(r: &mut Rng) -> String {
    loop {
        let t = match r.below(5) {
            0 => work::corpus()[r.below(work::corpus().len())].clone(),
            1 => {
                let c = &work::corpus()[r.below(work::corpus().len())];
                let cs: Vec<char> = c.chars().collect();
                cs[..r.below(cs.len() + 1)].iter().collect()
            }
            2 => gen::soup(r, 15),
            3 => work::any(r, 8).1,
            _ => {
                let mut s = String::new();
                for _ in 0..r.range(1, 4) {
                    s.push_str(&match r.below(6) {
                        0 => gen::number(r, true),
                        1 => gen::string(r, true),
                        2 => format!("`{}`", gen::template_chars(r, true)),
                        3 => gen::regex(r, true),
                        4 => gen::line(r, 100),
                        _ => gen::space(r, 100),
                    });
                }
                s
            }
        };
        if t.len() <= 150 {
            return t;
        }
    }
}

/// One of everything that can be long, this long: what is copied, counted or read in blocks may be wrong beyond some length only.
fn stretched(n: usize) -> Vec<String> {
    let u = |x: &str| x.repeat(n);
    let of = |x: &str| x.chars().cycle().take(n).collect::<String>();
    let mut v = vec![
        of("abcXYZ$_019"),
        of("1234567890"),
        format!("1{}", u("0")),
        format!("0.{}", of("1234567890")),
        format!("0.{}1", u("0")),
        format!(".{}", of("9876543210")),
        format!("1e{}", of("1234567890")),
        format!("1e-{}7", u("0")),
        format!("0x{}", of("1aF09c")),
        format!("0o{}", of("71043")),
        format!("0B{}", of("10110")),
        format!("'{}'", of("abc \"`/*${")),
        format!("\"{}\"", u("\\n")),
        format!("'{}'", u("\\u{61}")),
        format!("'{}'", u("\\x61")),
        format!("'{}'", u("\\\r\n")),
        format!("'{}'", u("\u{2014}")),
        format!("'\\u{{{}61}}'", u("0")),
        format!("`{}`", of("abc '\"/* $\r\n")),
        format!("`{}`", u("\\`")),
        format!("`{}`", u("\u{1F600}")),
        format!("`{}`", u("${a}")),
        format!("`${{a}}{}`", of("abc $\n")),
        format!("`${{a}}{}${{b}}`", of("abc $\n")),
        format!("/{}/g", of("abc.*(|)")),
        format!("/{}/", u("\\/")),
        format!("/[{}]/", of("/a-z*")),
        format!("/{}/", u("\u{2014}")),
        format!("/a/{}", of("gimsuy")),
        format!("//{}", of("a */ \u{2014}")),
        format!("/*{}*/", of("a /* \u{2014}\n")),
        format!("/*{}*/", u("*")),
        format!("a{}+b", u(" ")),
        format!("a{}+b", of(" \t\u{A0}\u{FEFF}\u{B}")),
        format!("a{}b", of("\n\r\u{2028}")),
        format!("a{}b", u("/**/\n")),
        u("a;"),
        u(";"),
        u("a+"),
        u("a,"),
        u("!"),
        u("{}"),
        u("a.b"),
        u("f()"),
    ];
    if n <= 300 {
        v.extend([format!("{}a{}", u("("), u(")")), format!("a={}{}", u("["), u("]")), format!("{}{}", u("{"), u("}")), format!("{}a{}", u("`${"), u("}`")), u("(")]);
    }
    v
}

/// The end of the first run under Valgrind's memcheck that ended in a complaint, or how many texts and tokens there were.
fn memcheck_run(texts: &[String], secs: u64, tag: &str) -> Option<MiriEnd> {
    let plain = std::env::var("JSMON_PLAIN").ok()?;
    if !valgrind() || !Path::new(&plain).exists() {
        return None;
    }
    let dir = sup::verif_dir().join("work").join(format!("memcheck.{}.{}", std::process::id(), tag));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let file = dir.join("texts");
    let mut s = String::new();
    for t in texts {
        s.push_str(&crate::case::escape(t));
        s.push('\n');
    }
    fs::write(&file, s).unwrap();
    let (so, log) = (dir.join("out"), dir.join("log"));
    let st = Command::new("timeout")
        .args(["-k", "10", &(secs + 200).to_string(), "/usr/bin/valgrind", "--tool=memcheck", "-q", "--error-exitcode=99", "--exit-on-first-error=yes"])
        .args(["--expensive-definedness-checks=yes", "--leak-check=no", "--max-stackframe=67108864"])
        .arg(format!("--log-file={}", log.display()))
        .arg(&plain)
        .arg("memcheck")
        .arg(&file)
        .arg(secs.to_string())
        .env("RUST_BACKTRACE", "0")
        .stdin(Stdio::null())
        .stdout(fs::File::create(&so).unwrap())
        .stderr(Stdio::null())
        .status();
    let out = String::from_utf8_lossy(&fs::read(&so).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&fs::read(&log).unwrap_or_default()).into_owned();
    let _ = fs::remove_dir_all(&dir);
    let last = out.lines().rev().find_map(|l| l.strip_prefix("MIRI CASE ")).and_then(crate::case::unescape);
    if let (Some(m), Some(t)) = (out.lines().find_map(|l| l.strip_prefix("MIRI FOUND ")), &last) {
        return Some(MiriEnd::Found(crate::case::unescape(m).unwrap_or_default(), t.clone()));
    }
    if let Some(d) = out.lines().find_map(|l| l.strip_prefix("MIRI DONE ")) {
        let f: Vec<u64> = d.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        return Some(MiriEnd::Done { cases: f[0], tokens: f[1] });
    }
    if let (Some(99), Some(t)) = (st.as_ref().ok().and_then(|s| s.code()), &last) {
        let mut m = err.lines().map(|l| l.splitn(3, "==").last().unwrap_or("").trim()).filter(|l| !l.is_empty());
        let what = m.next().unwrap_or("").to_string();
        let at = m.find(|l| l.contains("jsparse::")).unwrap_or("").to_string();
        return Some(MiriEnd::Found(format!("memcheck: {} {}", what, at), t.clone()));
    }
    Some(MiriEnd::Unclear(format!("memcheck: {:?} {}", st, mon::clip(err.lines().next().unwrap_or(""), 200))))
}

/// What memcheck says of undefined values depends on how the compiler went about it; Miri decides.
fn memcheck_confirmed(m: &str, t: &str, tot: &mut sup::Totals) -> bool {
    if m.contains("Invalid read") || m.contains("Invalid write") || m.contains("Invalid free") || !m.starts_with("memcheck") {
        return true;
    }
    if let MiriEnd::Found(..) = miri_run(&[t.to_string()], 100, "confirm") {
        return true;
    }
    *tot.counts.entry(format!("complaints Miri does not share: {}", m)).or_insert(0) += 1;
    false
}

pub enum MiriEnd {
    Done { cases: u64, tokens: u64 },
    Found(String, String),
    Unclear(String),
}

/// One interpreted run over the texts.
pub fn miri_run(texts: &[String], secs: u64, tag: &str) -> MiriEnd {
    let dir = sup::verif_dir().join("work").join(format!("miri.{}.{}", std::process::id(), tag));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let file = dir.join("texts");
    let mut s = String::new();
    for t in texts {
        s.push_str(&crate::case::escape(t));
        s.push('\n');
    }
    fs::write(&file, s).unwrap();
    let (so, se) = (dir.join("out"), dir.join("err"));
    let st = Command::new("timeout")
        .args(["-k", "10", &(secs + 200).to_string(), "cargo", "+nightly", "miri", "run", "--offline", "--target-dir"])
        .arg(sup::verif_dir().join("work/miri"))
        .args(["--", "miri"])
        .arg(&file)
        .arg(secs.to_string())
        .current_dir(sup::verif_dir().join("harness"))
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .env("RUST_BACKTRACE", "0")
        .env_remove("RUSTFLAGS")
        .stdin(Stdio::null())
        .stdout(fs::File::create(&so).unwrap())
        .stderr(fs::File::create(&se).unwrap())
        .status();
    let out = String::from_utf8_lossy(&fs::read(&so).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&fs::read(&se).unwrap_or_default()).into_owned();
    let _ = fs::remove_dir_all(&dir);
    let last = out.lines().rev().find_map(|l| l.strip_prefix("MIRI CASE ")).and_then(crate::case::unescape);
    if let (Some(m), Some(t)) = (out.lines().find_map(|l| l.strip_prefix("MIRI FOUND ")), &last) {
        return MiriEnd::Found(crate::case::unescape(m).unwrap_or_default(), t.clone());
    }
    if let Some(d) = out.lines().find_map(|l| l.strip_prefix("MIRI DONE ")) {
        let f: Vec<u64> = d.split(' ').map(|x| x.parse().unwrap_or(0)).collect();
        return MiriEnd::Done { cases: f[0], tokens: f[1] };
    }
    if let (Some(m), Some(t)) = (err.lines().find(|l| l.starts_with("error: Undefined Behavior") || l.contains("Data race detected")), &last) {
        return MiriEnd::Found(format!("Miri: {}", m), t.clone());
    }
    MiriEnd::Unclear(format!("{:?} {}", st, mon::clip(err.lines().filter(|l| l.starts_with("error")).next().unwrap_or(""), 200)))
}

/// The interpreted part of C21, several at a time.
pub fn miri_phase(tot: &mut sup::Totals) {
    let t = sup::tier();
    let secs = if t.thorough { 480 } else { 40 };
    // Build once first.
    match miri_run(&["a".to_string()], 5, "build") {
        MiriEnd::Done { .. } => {}
        MiriEnd::Found(m, t) => {
            tot.found.push(sup::Found { msg: m, case: Case::with("miri", vec![t], vec![0]), shard: 0, of: 1, index: 0 });
            return;
        }
        MiriEnd::Unclear(m) => {
            // Without the interpreter the rest still counts; the evidence says what ran.
            tot.counts.insert(format!("Miri did not run: {}", m), 1);
            return;
        }
    }
    let (ends, checked): (Vec<MiriEnd>, Vec<Option<MiriEnd>>) = std::thread::scope(|s| {
        let hs: Vec<_> = (0..6u64)
            .map(|k| {
                s.spawn(move || {
                    let mut r = sup::case_rng("miri", sup::seed(), k);
                    let n = if sup::tier().thorough { 20_000 } else { 1_500 };
                    let lens: &[usize] = if sup::tier().thorough { &[40, 150, 300] } else { &[40] };
                    let long: Vec<String> = lens.iter().flat_map(|n| stretched(*n)).collect();
                    let mut texts: Vec<String> = long.into_iter().skip(k as usize).step_by(6).collect();
                    texts.extend((0..n).map(|_| miri_text(&mut r)));
                    miri_run(&texts, secs, &k.to_string())
                })
            })
            .collect();
        let ms: Vec<_> = (0..2u64)
            .map(|k| {
                s.spawn(move || {
                    let mut r = sup::case_rng("memcheck", sup::seed(), k);
                    let n = if sup::tier().thorough { 400_000 } else { 60_000 };
                    let long: Vec<String> = [20, 40, 70, 140, 270, 600, 1200, 2100, 4200, 8300, 17_000].iter().flat_map(|n| stretched(*n)).collect();
                    let mut texts: Vec<String> = long.into_iter().skip(k as usize).step_by(2).collect();
                    texts.extend((0..n).map(|i| match i % 3 {
                        0 => miri_text(&mut r),
                        1 => work::lexical(&mut r),
                        _ => work::any(&mut r, 40).1,
                    }));
                    memcheck_run(&texts, secs, &k.to_string())
                })
            })
            .collect();
        (hs.into_iter().map(|h| h.join().unwrap_or(MiriEnd::Unclear("failed".into()))).collect(), ms.into_iter().map(|h| h.join().unwrap_or(None)).collect())
    });
    for e in checked {
        match e {
            Some(MiriEnd::Done { cases, tokens }) => {
                *tot.counts.entry("cases under memcheck".into()).or_insert(0) += cases;
                *tot.counts.entry("tokens under memcheck".into()).or_insert(0) += tokens;
                tot.evals += cases;
            }
            Some(MiriEnd::Found(m, t)) => {
                if memcheck_confirmed(&m, &t, tot) {
                    tot.found.push(sup::Found { msg: m, case: Case::with("memcheck", vec![t], vec![0]), shard: 0, of: 1, index: 0 });
                }
            }
            Some(MiriEnd::Unclear(m)) => *tot.counts.entry(format!("memcheck runs without an end: {}", m)).or_insert(0) += 1,
            None => *tot.counts.entry("memcheck did not run".into()).or_insert(0) += 1,
        }
    }
    for e in ends {
        match e {
            MiriEnd::Done { cases, tokens } => {
                *tot.counts.entry("cases under Miri".into()).or_insert(0) += cases;
                *tot.counts.entry("tokens under Miri".into()).or_insert(0) += tokens;
                tot.evals += cases;
            }
            MiriEnd::Found(m, t) => tot.found.push(sup::Found { msg: m, case: Case::with("miri", vec![t], vec![0]), shard: 0, of: 1, index: 0 }),
            MiriEnd::Unclear(m) => {
                *tot.counts.entry(format!("Miri runs without an end: {}", m)).or_insert(0) += 1;
            }
        }
    }
}

/// Log type used by the token sources above.
#[allow(dead_code)]
type _L<'c> = Log<'c>;
