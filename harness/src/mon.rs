//! Monitors at the API boundary of the code under test: a `Tokenizer` that records every request and answer while the real parser runs,
//! and a driver that asks the real tokenizer for tokens under chosen hints.

use crate::reflex::{self, Kind, Num, Tf};
use jsparse::verif_hooks::tokens::{self, Token};
use jsparse::verif_hooks::{Hint, TokenRange};
use jsparse::{IntoTokenizer, Tokenizer};
use std::cell::RefCell;
use std::fmt;
use std::panic::{self, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct H {
    pub expr: bool,
    pub tmpl: bool,
    pub strict: bool,
}
pub fn hint(h: H) -> Hint {
    Hint::default().expression(h.expr).template(h.tmpl).strict(h.strict)
}
pub fn unhint(x: &Hint) -> H {
    for i in 0..8 {
        let h = H { expr: i & 1 != 0, tmpl: i & 2 != 0, strict: i & 4 != 0 };
        if hint(h) == *x {
            return h;
        }
    }
    panic!("jsmon: hint not recognised");
}

#[derive(Clone, Debug)]
pub struct Ev<'c> {
    pub hint: H,
    pub tok: Token<'c>,
    pub range: TokenRange,
}
impl<'c> Ev<'c> {
    pub fn trivia(&self) -> bool {
        is_trivia(&self.tok)
    }
}
pub fn is_trivia(t: &Token) -> bool {
    matches!(t, Token::Whitespace(_) | Token::LineTerminator(_) | Token::Comment(_))
}

#[derive(Default)]
pub struct Log<'c> {
    pub ev: Vec<Ev<'c>>,
    pub pending: Option<H>,
    pub requests: usize,
}

pub const BUDGET_MSG: &str = "jsmon: token budget exhausted";

/// Records what passes between the parser and the tokenizer it wraps.
pub struct Mon<'c, T> {
    inner: T,
    log: Rc<RefCell<Log<'c>>>,
    budget: usize,
    keep: bool,
}
impl<'c, T> fmt::Debug for Mon<'c, T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Mon")
    }
}
impl<'c, T: Clone> Clone for Mon<'c, T> {
    fn clone(&self) -> Self {
        Mon { inner: self.inner.clone(), log: self.log.clone(), budget: self.budget, keep: self.keep }
    }
}
impl<'c, T: Tokenizer<'c>> Tokenizer<'c> for Mon<'c, T> {
    fn next_token(&mut self, h: &Hint, out: (&mut Token<'c>, &mut TokenRange)) {
        let hint = unhint(h);
        {
            let mut log = self.log.borrow_mut();
            log.pending = Some(hint);
            log.requests += 1;
            if log.requests > self.budget {
                drop(log);
                panic!("{}", BUDGET_MSG);
            }
        }
        self.inner.next_token(h, (out.0, out.1));
        let mut log = self.log.borrow_mut();
        log.pending = None;
        if self.keep {
            log.ev.push(Ev { hint, tok: out.0.clone(), range: *out.1 });
        }
    }
}

/// A source of tokens, built from any tokenizer.
pub struct Src<'c, T> {
    inner: T,
    log: Rc<RefCell<Log<'c>>>,
    budget: usize,
    keep: bool,
}
impl<'c, T: Tokenizer<'c> + 'c> IntoTokenizer<'c> for Src<'c, T> {
    type Item = Mon<'c, T>;
    fn into_tokenizer(self) -> Mon<'c, T> {
        Mon { inner: self.inner, log: self.log, budget: self.budget, keep: self.keep }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    /// refused by the tokenizer (a request was pending) or by the parser
    Reject { lexer: bool },
    Fault(String),
    Budget,
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        *self == Verdict::Accept
    }
    pub fn rejected(&self) -> bool {
        matches!(self, Verdict::Reject { .. })
    }
    pub fn name(&self) -> String {
        match self {
            Verdict::Accept => "accepted".into(),
            Verdict::Reject { lexer: true } => "rejected (by the tokenizer)".into(),
            Verdict::Reject { lexer: false } => "rejected (by the parser)".into(),
            Verdict::Fault(m) => format!("fault: {}", m),
            Verdict::Budget => "asked for tokens without end".into(),
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

pub fn install_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        if std::env::var_os("JSMON_TRACE").is_some() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

/// Messages with which the Rust runtime reports that a program broke its own rules.
const FAULTS: [&str; 27] = [
    "index out of bounds",
    "out of range for slice",
    "out of range for str",
    "byte index",
    "char boundary",
    "out of bounds",
    "range end index",
    "range start index",
    "slice index starts at",
    "begin <= end",
    "begin > end",
    "begin ≤ end",
    "attempt to ",
    "entered unreachable code",
    "`Option::unwrap()` on a `None`",
    "already borrowed",
    "already mutably borrowed",
    "BorrowMutError",
    "capacity overflow",
    "assertion failed",
    "assertion `",
    "ParseIntError",
    "ParseFloatError",
    "Utf8Error",
    "TryFromIntError",
    "no entry found for key",
    "mid > len",
];

pub fn is_fault(msg: &str) -> bool {
    FAULTS.iter().any(|f| msg.contains(f))
}

/// Run `f`; what a panic said, if it panicked.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(("?".into(), "?".into()));
            if m.0.starts_with("jsmon:") && m.0 != BUDGET_MSG {
                // Our own mistake, not an observation.
                eprintln!("harness error: {} at {}", m.0, m.1);
                std::process::exit(2);
            }
            Err(m)
        }
    }
}

pub struct Run<'c> {
    pub verdict: Verdict,
    pub ev: Vec<Ev<'c>>,
    pub requests: usize,
    pub pending: Option<H>,
}
impl<'c> Run<'c> {
    pub fn significant(&self) -> impl Iterator<Item = &Ev<'c>> {
        self.ev.iter().filter(|e| !e.trivia())
    }
    /// End of what the parser has read.
    pub fn read_to(&self) -> usize {
        self.ev.last().map_or(0, |e| e.range.end.offset)
    }
}

pub fn budget_for(text: &str) -> usize {
    text.len() + 64
}

pub fn run_with<'c, T: Tokenizer<'c> + 'c>(t: T, budget: usize, keep: bool) -> Run<'c> {
    let log = Rc::new(RefCell::new(Log::default()));
    let src = Src { inner: t, log: log.clone(), budget, keep };
    let r = catch(|| jsparse::parser::parse_root::<_, ()>(src));
    let mut log = log.borrow_mut();
    let verdict = match r {
        Ok(()) => Verdict::Accept,
        Err((m, loc)) => {
            if m == BUDGET_MSG {
                Verdict::Budget
            } else if is_fault(&m) {
                Verdict::Fault(format!("{} at {}", m, loc))
            } else {
                Verdict::Reject { lexer: log.pending.is_some() }
            }
        }
    };
    Run { verdict, ev: std::mem::replace(&mut log.ev, vec![]), requests: log.requests, pending: log.pending }
}

pub fn run<'c>(text: &'c str) -> Run<'c> {
    run_with(text.into_tokenizer(), budget_for(text), true)
}

/// The verdict only, through the public entry point and without a monitor in between.
pub fn plain(text: &str) -> Verdict {
    match catch(|| jsparse::parser::parse_root::<_, ()>(text)) {
        Ok(()) => Verdict::Accept,
        Err((m, loc)) => {
            if is_fault(&m) {
                Verdict::Fault(format!("{} at {}", m, loc))
            } else {
                Verdict::Reject { lexer: false }
            }
        }
    }
}

/// Drives the real tokenizer directly.
pub struct Drive<'c> {
    t: <&'c str as IntoTokenizer<'c>>::Item,
}
impl<'c> Drive<'c> {
    pub fn new(text: &'c str) -> Drive<'c> {
        Drive { t: text.into_tokenizer() }
    }
    pub fn next(&mut self, h: H) -> Result<Ev<'c>, Verdict> {
        // Poisoned, so that nothing left over from before passes for an answer.
        let mut range = TokenRange::default();
        range.start.offset = usize::MAX;
        range.end.offset = usize::MAX;
        self.next_over(h, Token::Whitespace(tokens::WhitespaceToken {}), range)
    }
    /// With the place for the answer still holding this, as where a caller uses it again.
    pub fn next_over(&mut self, h: H, left: Token<'c>, left_range: TokenRange) -> Result<Ev<'c>, Verdict> {
        let mut tok = left;
        let mut range = left_range;
        let t = &mut self.t;
        match catch(|| t.next_token(&hint(h), (&mut tok, &mut range))) {
            Ok(()) => Ok(Ev { hint: h, tok, range }),
            Err((m, loc)) => {
                if is_fault(&m) {
                    Err(Verdict::Fault(format!("{} at {}", m, loc)))
                } else {
                    Err(Verdict::Reject { lexer: true })
                }
            }
        }
    }
}

/// What the place for an answer may still hold.
pub fn leftover(k: usize) -> Option<(Token<'static>, TokenRange)> {
    use tokens::PunctuatorToken::*;
    let tok: Token<'static> = match k {
        0 => tokens::EOFToken {}.into(),
        1 => ParenClose.into(),
        2 => CurlyClose.into(),
        3 => SquareClose.into(),
        4 => ParenOpen.into(),
        5 => CurlyOpen.into(),
        6 => Slash.into(),
        7 => PlusPlus.into(),
        8 => Semicolon.into(),
        9 => tokens::IdentifierNameToken { name: "a".into() }.into(),
        10 => tokens::IdentifierNameToken { name: "return".into() }.into(),
        11 => tokens::NumericLiteralToken { value: 1.0 }.into(),
        12 => tokens::StringLiteralToken { value: "a".into() }.into(),
        13 => tokens::TemplateToken { format: tokens::TemplateFormat::Head, raw: "a".into(), cooked: "a".into() }.into(),
        14 => tokens::TemplateToken { format: tokens::TemplateFormat::Tail, raw: "a".into(), cooked: "a".into() }.into(),
        15 => tokens::RegularExpressionLiteralToken { pattern: "a".into(), flags: "".into() }.into(),
        16 => tokens::LineTerminatorToken {}.into(),
        17 => tokens::CommentToken { format: tokens::CommentFormat::Line, value: "a".into() }.into(),
        18 => tokens::CommentToken { format: tokens::CommentFormat::Block, value: "a\n".into() }.into(),
        19 => Comma.into(),
        20 => Eq.into(),
        _ => return None,
    };
    let mut range = TokenRange::default();
    if k % 3 == 1 {
        range.start.line = 7;
        range.end.line = 9;
        range.start.offset = 1;
        range.end.offset = 2;
    }
    Some((tok, range))
}

/// By the variant's name, so that an added or unused variant does not stop the harness from building.
pub fn punct_text(p: tokens::PunctuatorToken) -> &'static str {
    let name = format!("{:?}", p);
    match name.as_str() {
        "CurlyOpen" => "{",
        "CurlyClose" => "}",
        "ParenOpen" => "(",
        "ParenClose" => ")",
        "SquareOpen" => "[",
        "SquareClose" => "]",
        "Semicolon" => ";",
        "Comma" => ",",
        "Tilde" => "~",
        "Question" => "?",
        "Colon" => ":",
        "Period" => ".",
        "Ellipsis" => "...",
        "LAngle" => "<",
        "LAngleEq" => "<=",
        "LAngleAngle" => "<<",
        "LAngleAngleEq" => "<<=",
        "LAngleExclamDashDash" => "<!--",
        "RAngle" => ">",
        "RAngleEq" => ">=",
        "RAngleAngle" => ">>",
        "RAngleAngleEq" => ">>=",
        "RAngleAngleAngle" => ">>>",
        "RAngleAngleAngleEq" => ">>>=",
        "Exclam" => "!",
        "ExclamEq" => "!=",
        "ExclamEqEq" => "!==",
        "Eq" => "=",
        "Arrow" => "=>",
        "EqEq" => "==",
        "EqEqEq" => "===",
        "Plus" => "+",
        "PlusEq" => "+=",
        "PlusPlus" => "++",
        "Minus" => "-",
        "MinusEq" => "-=",
        "MinusMinus" => "--",
        "MinusMinusAngle" => "-->",
        "Percent" => "%",
        "PercentEq" => "%=",
        "Star" => "*",
        "StarEq" => "*=",
        "StarStar" => "**",
        "StarStarEq" => "**=",
        "Slash" => "/",
        "SlashEq" => "/=",
        "Amp" => "&",
        "AmpAmp" => "&&",
        "AmpEq" => "&=",
        "Bar" => "|",
        "BarBar" => "||",
        "BarEq" => "|=",
        "Caret" => "^",
        "CaretEq" => "^=",
        _ => "?",
    }
}

pub fn describe(t: &Token) -> String {
    match t {
        Token::Punctuator(p) => format!("punctuator {}", punct_text(*p)),
        other => {
            let s = format!("{:?}", other);
            clip(&s, 160)
        }
    }
}
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        return s.to_string();
    }
    let mut x: String = s.chars().take(n).collect();
    x.push_str("...");
    x
}

/// What a token's answer gets wrong.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wrong {
    Kind,
    Extent,
    Payload,
    Value,
}

/// Compare an answer with the reference's token for the same place.
pub fn compare(text: &str, ev: &Ev, want: &reflex::Tok) -> Result<(), (Wrong, String)> {
    let got_kind: &str = kind_name(&ev.tok);
    let want_kind: &str = ref_kind_name(&want.kind);
    let src = || clip(&text[want.start..], 60);
    if got_kind != want_kind {
        return Err((Wrong::Kind, format!("{:?}: expected {}, got {}", src(), want_kind, describe(&ev.tok))));
    }
    let (s, e) = (ev.range.start.offset, ev.range.end.offset);
    if let (Kind::Punct(p), Token::Punctuator(q)) = (&want.kind, &ev.tok) {
        if *p != punct_text(*q) {
            return Err((Wrong::Extent, format!("{:?}: expected {}, got {}", src(), p, punct_text(*q))));
        }
    }
    if (s, e) != (want.start, want.end) {
        return Err((
            Wrong::Extent,
            format!("{:?}: expected {} at {}..{}, got {}..{}", src(), want_kind, want.start, want.end, s, e),
        ));
    }
    let lexeme = &text[want.start..want.end];
    let payload = |what: &str, want: &str, got: &str| {
        if want == got {
            Ok(())
        } else {
            Err((Wrong::Payload, format!("{:?}: {} is {:?} instead of {:?}", clip(lexeme, 60), what, clip(got, 60), clip(want, 60))))
        }
    };
    match (&want.kind, &ev.tok) {
        (Kind::Ident, Token::IdentifierName(t)) => payload("name", lexeme, &t.name),
        (Kind::Str, Token::StringLiteral(t)) => payload("string", &lexeme[1..lexeme.len() - 1], &t.value),
        (Kind::Regex(close), Token::RegularExpressionLiteral(t)) => {
            payload("pattern", &text[want.start + 1..*close], &t.pattern)?;
            payload("flags", &text[*close + 1..want.end], &t.flags)
        }
        (Kind::Template(f), Token::Template(t)) => {
            let got = tf(&t.format);
            if got != *f {
                return Err((Wrong::Kind, format!("{:?}: template piece is {:?} instead of {:?}", src(), got, f)));
            }
            let tail = match f {
                Tf::Whole | Tf::Tail => 1,
                _ => 2,
            };
            let inner = &lexeme[1..lexeme.len() - tail];
            payload("raw text", inner, &t.raw)?;
            payload("cooked text", inner, &t.cooked)
        }
        (Kind::LineComment, Token::Comment(t)) => {
            if t.format != tokens::CommentFormat::Line {
                return Err((Wrong::Kind, format!("{:?}: not a line comment", src())));
            }
            payload("comment", &lexeme[2..], &t.value)
        }
        (Kind::BlockComment, Token::Comment(t)) => {
            if t.format != tokens::CommentFormat::Block {
                return Err((Wrong::Kind, format!("{:?}: not a block comment", src())));
            }
            payload("comment", &lexeme[2..lexeme.len() - 2], &t.value)
        }
        (Kind::Num(n), Token::NumericLiteral(t)) => {
            let ok = match n {
                Num::Exact(v) => *v == t.value,
                Num::Near(v) => {
                    if *v == 0.0 {
                        t.value == 0.0
                    } else {
                        ((t.value - v) / v).abs() <= 1e-9
                    }
                }
                Num::Huge => t.value > 1e290,
                Num::Tiny => t.value >= 0.0 && t.value < 1e-290,
                Num::Extent => true,
            };
            if ok {
                Ok(())
            } else {
                Err((Wrong::Value, format!("{:?}: value {:?}, expected {:?}", clip(lexeme, 60), t.value, n)))
            }
        }
        _ => Ok(()),
    }
}

pub fn tf(f: &tokens::TemplateFormat) -> Tf {
    match f {
        tokens::TemplateFormat::NoSubstitution => Tf::Whole,
        tokens::TemplateFormat::Head => Tf::Head,
        tokens::TemplateFormat::Middle => Tf::Middle,
        tokens::TemplateFormat::Tail => Tf::Tail,
    }
}

pub fn kind_name(t: &Token) -> &'static str {
    match t {
        Token::Punctuator(_) => "punctuator",
        Token::Comment(_) => "comment",
        Token::Whitespace(_) => "white space",
        Token::LineTerminator(_) => "line terminator",
        Token::RegularExpressionLiteral(_) => "regular expression",
        Token::IdentifierName(_) => "name",
        Token::NumericLiteral(_) => "number",
        Token::StringLiteral(_) => "string",
        Token::Template(_) => "template piece",
        Token::EOF(_) => "end of input",
    }
}
pub fn ref_kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::Punct(_) => "punctuator",
        Kind::LineComment | Kind::BlockComment => "comment",
        Kind::Line => "line terminator",
        Kind::Regex(_) => "regular expression",
        Kind::Ident => "name",
        Kind::Num(_) => "number",
        Kind::Str => "string",
        Kind::Template(_) => "template piece",
        Kind::Eof => "end of input",
    }
}
