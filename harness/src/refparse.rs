//! Reference recogniser for ECMAScript 2018 modules, written from the standard's grammar and independent of the code under test.
//!
//! It lexes on demand with the goal symbol each position demands (through `reflex`) and backtracks where the grammar is ambiguous until
//! `=>` is seen. The outcome is one of
//!   * derivable, nothing questionable: must be accepted, and `toks` is the one token sequence of the program;
//!   * derivable, but only with an early error (EARLY), a form the parser does not implement or a laxness of its cover grammars (STRUCT):
//!     the verdict is not judged;
//!   * not derivable even so: must be rejected; `far` is the first place where no derivation could continue.

use crate::reflex::{self, Kind, Lexed, Num, Tf};
use std::collections::HashSet;

pub const EARLY: u32 = 1;
pub const STRUCT: u32 = 2;

#[derive(Clone, Debug)]
pub struct RTok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
    pub nl: bool,
    odd: bool,
    lax: bool,
}

#[derive(Clone, Copy)]
struct Ctx {
    in_ok: bool,
    yield_: bool,
    await_: bool,
    func: bool,
    new_target: bool,
    super_prop: bool,
    super_call: bool,
    in_loop: bool,
    in_switch: bool,
    label_base: usize,
    /// inside the parameters of a generator / async function
    params: bool,
    /// inside what may be the parameters of an arrow function
    arrow: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Shape {
    Ident,
    /// eval or arguments
    BadIdent,
    Member,
    /// Array or object literal; could it be an assignment pattern?
    Lit(bool),
    /// `target = value`, with a valid target
    AssignEq,
    Other,
}
impl Shape {
    fn simple(self) -> bool {
        matches!(self, Shape::Ident | Shape::Member)
    }
    fn target(self) -> bool {
        self.simple() || self == Shape::Lit(true)
    }
    fn element(self) -> bool {
        self.target() || self == Shape::AssignEq
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum DeclKind {
    Lex,
    Var,
    Param,
    Catch,
}

struct Decl {
    scope: usize,
    name: String,
    kind: DeclKind,
}

pub struct Stop;
type R<T> = Result<T, Stop>;

pub struct Ref<'t> {
    text: &'t str,
    pos: usize,
    peeked: Option<(bool, RTok)>,
    pub toks: Vec<RTok>,
    ctx: Ctx,
    pub gray: u32,
    pub why: Vec<&'static str>,
    pub unjudged: bool,
    late: bool,
    /// start of the furthest token at which some attempt failed
    pub far: usize,
    failed_arrows: HashSet<(usize, u8)>,
    decls: Vec<Decl>,
    scopes: Vec<(usize, bool)>,
    next_scope: usize,
    labels: Vec<(String, bool)>,
    exports: Vec<String>,
    export_locals: Vec<String>,
    depth: usize,
    steps: usize,
    pub gave_up: bool,
}

struct Save {
    pos: usize,
    peeked: Option<(bool, RTok)>,
    toks: usize,
    ctx: Ctx,
    gray: u32,
    why: usize,
    decls: usize,
    scopes: usize,
    labels: usize,
    exports: usize,
    export_locals: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    /// must be accepted
    Valid,
    /// verdict not judged, but the token sequence is the only one
    Early,
    /// not judged
    Gray,
    /// must be rejected
    Invalid,
}

pub struct Outcome {
    pub class: Class,
    pub toks: Vec<RTok>,
    pub far: usize,
    pub why: Vec<&'static str>,
    /// The text may be outside the grammar only by what a parser may notice at the end of the construct.
    pub late: bool,
}

const MAX_DEPTH: usize = 1500;

pub fn classify(text: &str) -> Outcome {
    let mut r = Ref::new(text);
    let ok = r.module().is_ok();
    let class = if r.unjudged || r.gave_up {
        Class::Gray
    } else if !ok {
        Class::Invalid
    } else if r.gray & STRUCT != 0 {
        Class::Gray
    } else if r.gray & EARLY != 0 {
        Class::Early
    } else {
        Class::Valid
    };
    Outcome { class, toks: r.toks, far: r.far, why: r.why, late: r.late }
}

const RESERVED: [&str; 40] = [
    "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "finally",
    "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void",
    "while", "with", "yield", "await", "enum", "null", "true", "false", "\u{0}", "\u{0}",
];
const STRICT_RESERVED: [&str; 8] = ["let", "static", "implements", "package", "protected", "interface", "private", "public"];

pub fn is_reserved(s: &str) -> bool {
    RESERVED.contains(&s)
}

impl<'t> Ref<'t> {
    pub fn new(text: &'t str) -> Ref<'t> {
        Ref {
            text,
            pos: 0,
            peeked: None,
            toks: vec![],
            ctx: Ctx {
                in_ok: true,
                yield_: false,
                await_: false,
                func: false,
                new_target: false,
                super_prop: false,
                super_call: false,
                in_loop: false,
                in_switch: false,
                label_base: 0,
                params: false,
                arrow: false,
            },
            gray: 0,
            why: vec![],
            unjudged: false,
            late: false,
            far: 0,
            failed_arrows: HashSet::new(),
            decls: vec![],
            scopes: vec![],
            next_scope: 0,
            labels: vec![],
            exports: vec![],
            export_locals: vec![],
            depth: 0,
            steps: 0,
            gave_up: false,
        }
    }

    // ---- state

    fn save(&self) -> Save {
        Save {
            pos: self.pos,
            peeked: self.peeked.clone(),
            toks: self.toks.len(),
            ctx: self.ctx,
            gray: self.gray,
            why: self.why.len(),
            decls: self.decls.len(),
            scopes: self.scopes.len(),
            labels: self.labels.len(),
            exports: self.exports.len(),
            export_locals: self.export_locals.len(),
        }
    }
    fn restore(&mut self, s: Save) {
        self.pos = s.pos;
        self.peeked = s.peeked;
        self.toks.truncate(s.toks);
        self.ctx = s.ctx;
        self.gray = s.gray;
        self.why.truncate(s.why);
        self.decls.truncate(s.decls);
        self.scopes.truncate(s.scopes);
        self.labels.truncate(s.labels);
        self.exports.truncate(s.exports);
        self.export_locals.truncate(s.export_locals);
    }
    fn early(&mut self, why: &'static str) {
        self.gray |= EARLY;
        self.why.push(why);
    }
    fn strct(&mut self, why: &'static str) {
        self.gray |= STRUCT;
        self.why.push(why);
    }
    fn with<T>(&mut self, f: impl FnOnce(&mut Ctx), g: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        let old = self.ctx;
        f(&mut self.ctx);
        let r = g(self);
        self.ctx = old;
        r
    }
    fn deeper<T>(&mut self, g: impl FnOnce(&mut Self) -> R<T>) -> R<T> {
        self.depth += 1;
        self.steps += 1;
        if self.depth > MAX_DEPTH || self.steps > 3_000_000 {
            self.gave_up = true;
            self.depth -= 1;
            return Err(Stop);
        }
        let r = g(self);
        self.depth -= 1;
        r
    }

    // ---- tokens

    fn read(&mut self, from: usize, expr: bool, tmpl: bool) -> R<RTok> {
        let mut off = from;
        let mut nl = false;
        loop {
            off = reflex::skip_ws(self.text, off);
            match reflex::lex(self.text, off, expr, tmpl) {
                Lexed::Tok(t) => match t.kind {
                    Kind::Line => {
                        nl = true;
                        off = t.end;
                    }
                    Kind::LineComment => off = t.end,
                    Kind::BlockComment => {
                        nl |= self.text[t.start..t.end].contains(&reflex::LTS[..]);
                        off = t.end;
                    }
                    _ => return Ok(RTok { kind: t.kind, start: t.start, end: t.end, nl, odd: t.odd_escape, lax: t.may_refuse }),
                },
                Lexed::Refuse(_) => {
                    self.far = self.far.max(off);
                    return Err(Stop);
                }
                Lexed::Unjudged(w) => {
                    self.unjudged = true;
                    self.why.push(w);
                    self.far = self.far.max(off);
                    return Err(Stop);
                }
            }
        }
    }
    fn peek(&mut self, expr: bool) -> R<RTok> {
        if let Some((e, ref t)) = self.peeked {
            // The goal only matters for tokens that start with a slash.
            if e == expr || !self.text[t.start..].starts_with('/') {
                return Ok(t.clone());
            }
        }
        let t = self.read(self.pos, expr, false)?;
        self.peeked = Some((expr, t.clone()));
        Ok(t)
    }
    /// The token after `t`, itself the next one.
    fn peek_after(&mut self, t: &RTok, expr: bool) -> R<RTok> {
        let (u, f) = (self.unjudged, self.far);
        let r = self.read(t.end, expr, false);
        if expr {
            // It may have been read under the wrong goal: no conclusions.
            self.unjudged = u;
            self.far = f;
        }
        r
    }
    fn take(&mut self, t: RTok) -> RTok {
        if t.lax {
            self.strct("token the standard refuses where it stands");
        }
        self.pos = t.end;
        self.peeked = None;
        self.toks.push(t.clone());
        t
    }
    fn fail<T>(&mut self, expr: bool) -> R<T> {
        if let Ok(t) = self.peek(expr) {
            self.far = self.far.max(t.start);
        }
        Err(Stop)
    }
    fn txt(&self, t: &RTok) -> &'t str {
        &self.text[t.start..t.end]
    }
    fn is_p(&self, t: &RTok, p: &str) -> bool {
        matches!(t.kind, Kind::Punct(q) if q == p)
    }
    fn is_k(&self, t: &RTok, k: &str) -> bool {
        t.kind == Kind::Ident && self.txt(t) == k
    }
    fn at_p(&mut self, p: &str, expr: bool) -> R<bool> {
        let t = self.peek(expr)?;
        Ok(self.is_p(&t, p))
    }
    fn at_k(&mut self, k: &str, expr: bool) -> R<bool> {
        let t = self.peek(expr)?;
        Ok(self.is_k(&t, k))
    }
    fn opt_p(&mut self, p: &str, expr: bool) -> R<bool> {
        let t = self.peek(expr)?;
        if self.is_p(&t, p) {
            self.take(t);
            return Ok(true);
        }
        Ok(false)
    }
    fn opt_k(&mut self, k: &str, expr: bool) -> R<bool> {
        let t = self.peek(expr)?;
        if self.is_k(&t, k) {
            self.take(t);
            return Ok(true);
        }
        Ok(false)
    }
    fn eat_p(&mut self, p: &str) -> R<()> {
        if self.opt_p(p, false)? {
            Ok(())
        } else {
            self.fail(false)
        }
    }
    fn eat_k(&mut self, k: &str) -> R<()> {
        if self.opt_k(k, false)? {
            Ok(())
        } else {
            self.fail(false)
        }
    }
    fn eat_str(&mut self) -> R<()> {
        let t = self.peek(false)?;
        if t.kind == Kind::Str {
            self.take(t);
            Ok(())
        } else {
            self.fail(false)
        }
    }

    fn semicolon(&mut self) -> R<()> {
        let t = self.peek(false)?;
        if self.is_p(&t, ";") {
            self.take(t);
        } else if !(self.is_p(&t, "}") || t.kind == Kind::Eof || t.nl) {
            return self.fail(false);
        }
        Ok(())
    }

    // ---- names and scopes

    /// Can this token be an identifier (reference, binding or label)?
    fn ident_ok(&mut self, t: &RTok) -> bool {
        t.kind == Kind::Ident && !is_reserved(self.txt(t))
    }
    fn take_ident(&mut self, t: RTok) -> &'t str {
        let s = self.txt(&t);
        if STRICT_RESERVED.contains(&s) {
            self.early("strict reserved word");
        }
        self.take(t);
        s
    }
    fn binding_ident(&mut self, kind: Option<DeclKind>) -> R<()> {
        let t = self.peek(false)?;
        if !self.ident_ok(&t) {
            return self.fail(false);
        }
        let s = self.take_ident(t);
        if s == "eval" || s == "arguments" {
            self.early("binding eval or arguments");
        }
        if let Some(k) = kind {
            if k == DeclKind::Lex && s == "let" {
                self.early("let let");
            }
            self.declare(s, k);
        }
        Ok(())
    }
    fn push_scope(&mut self, function: bool) {
        self.scopes.push((self.next_scope, function));
        self.next_scope += 1;
    }
    fn pop_scope(&mut self) {
        self.scopes.pop();
    }
    fn declare(&mut self, name: &str, kind: DeclKind) {
        let top = match self.scopes.last() {
            Some(s) => s.0,
            None => return,
        };
        let mut clash = false;
        match kind {
            DeclKind::Lex => {
                clash = self.decls.iter().any(|d| d.scope == top && d.name == name);
                self.decls.push(Decl { scope: top, name: name.to_string(), kind });
            }
            DeclKind::Param | DeclKind::Catch => {
                clash = self.decls.iter().any(|d| d.scope == top && d.name == name);
                self.decls.push(Decl { scope: top, name: name.to_string(), kind });
            }
            DeclKind::Var => {
                for i in (0..self.scopes.len()).rev() {
                    let (id, function) = self.scopes[i];
                    clash |= self
                        .decls
                        .iter()
                        .any(|d| d.scope == id && d.name == name && matches!(d.kind, DeclKind::Lex | DeclKind::Catch));
                    self.decls.push(Decl { scope: id, name: name.to_string(), kind });
                    if function {
                        break;
                    }
                }
            }
        }
        if clash {
            self.early("duplicate declaration");
        }
    }
    fn export_name(&mut self, s: &str) {
        if self.exports.iter().any(|e| e == s) {
            self.early("duplicate export");
        }
        self.exports.push(s.to_string());
    }

    // ---- module

    pub fn module(&mut self) -> R<()> {
        self.push_scope(true);
        loop {
            let t = self.peek(true)?;
            if t.kind == Kind::Eof {
                self.take(t);
                break;
            }
            if self.is_k(&t, "import") {
                self.import()?;
            } else if self.is_k(&t, "export") {
                self.export()?;
            } else {
                self.list_item()?;
            }
        }
        let top = self.scopes[0].0;
        for e in std::mem::replace(&mut self.export_locals, vec![]) {
            if !self.decls.iter().any(|d| d.scope == top && d.name == e) {
                self.early("export of an undeclared name");
            }
        }
        Ok(())
    }

    fn import(&mut self) -> R<()> {
        self.eat_k("import")?;
        let t = self.peek(false)?;
        if t.kind == Kind::Str {
            self.take(t);
            return self.semicolon();
        }
        let mut more = true;
        if self.ident_ok(&t) {
            self.binding_ident(Some(DeclKind::Lex))?;
            more = self.opt_p(",", false)?;
        }
        if more {
            if self.opt_p("*", false)? {
                self.eat_k("as")?;
                self.binding_ident(Some(DeclKind::Lex))?;
            } else {
                self.eat_p("{")?;
                loop {
                    let t = self.peek(false)?;
                    if t.kind != Kind::Ident {
                        break;
                    }
                    let n = self.peek_after(&t, false)?;
                    if self.is_k(&n, "as") {
                        self.take(t);
                        self.eat_k("as")?;
                    }
                    self.binding_ident(Some(DeclKind::Lex))?;
                    if !self.opt_p(",", false)? {
                        break;
                    }
                }
                self.eat_p("}")?;
            }
        }
        self.eat_k("from")?;
        self.eat_str()?;
        self.semicolon()
    }

    fn export(&mut self) -> R<()> {
        self.eat_k("export")?;
        let t = self.peek(false)?;
        if self.is_k(&t, "default") {
            self.take(t);
            self.export_name("default");
            let t = self.peek(true)?;
            if self.is_k(&t, "function") || self.is_async_function(&t)? {
                return self.function(true, true);
            }
            if self.is_k(&t, "class") {
                return self.class(true, true);
            }
            self.with(|c| c.in_ok = true, |s| s.assign())?;
            return self.semicolon();
        }
        if self.is_p(&t, "*") {
            self.take(t);
            self.eat_k("from")?;
            self.eat_str()?;
            return self.semicolon();
        }
        if self.is_p(&t, "{") {
            self.take(t);
            let mut locals = vec![];
            loop {
                let t = self.peek(false)?;
                if t.kind != Kind::Ident {
                    break;
                }
                let t = self.take(t);
                let local = self.txt(&t);
                let mut name = local;
                if self.opt_k("as", false)? {
                    let t = self.peek(false)?;
                    if t.kind != Kind::Ident {
                        return self.fail(false);
                    }
                    let t = self.take(t);
                    name = self.txt(&t);
                }
                self.export_name(name);
                locals.push(local);
                if !self.opt_p(",", false)? {
                    break;
                }
            }
            self.eat_p("}")?;
            // `from` on a new line still belongs to the declaration.
            if self.opt_k("from", false)? {
                self.eat_str()?;
            } else {
                for l in locals {
                    if is_reserved(l) || STRICT_RESERVED.contains(&l) {
                        self.strct("export of a reserved word");
                    }
                    self.export_locals.push(l.to_string());
                }
            }
            return self.semicolon();
        }
        let before = self.decls.len();
        if self.is_k(&t, "var") {
            self.var_statement()?;
        } else if self.is_k(&t, "let") || self.is_k(&t, "const") {
            self.lexical()?;
        } else if self.is_k(&t, "class") {
            self.class(true, false)?;
        } else if self.is_k(&t, "function") || self.is_async_function(&t)? {
            self.function(true, false)?;
        } else {
            return self.fail(false);
        }
        let top = self.scopes[0].0;
        let names: Vec<String> = self.decls[before..].iter().filter(|d| d.scope == top).map(|d| d.name.clone()).collect();
        for n in names {
            self.export_name(&n);
        }
        Ok(())
    }

    // ---- statements

    fn is_async_function(&mut self, t: &RTok) -> R<bool> {
        if !self.is_k(t, "async") {
            return Ok(false);
        }
        Ok(match self.peek_after(t, false) {
            Ok(n) => self.is_k(&n, "function") && !n.nl,
            Err(_) => false,
        })
    }

    fn list_item(&mut self) -> R<()> {
        let t = self.peek(true)?;
        if self.is_k(&t, "function") || self.is_async_function(&t)? {
            return self.function(true, false);
        }
        if self.is_k(&t, "class") {
            return self.class(true, false);
        }
        if self.is_k(&t, "let") || self.is_k(&t, "const") {
            return self.lexical();
        }
        self.statement()
    }

    fn lexical(&mut self) -> R<()> {
        let t = self.peek(true)?;
        let konst = self.is_k(&t, "const");
        self.take(t);
        self.with(
            |c| c.in_ok = true,
            |s| {
                loop {
                    s.declarator(DeclKind::Lex, konst)?;
                    if !s.opt_p(",", false)? {
                        return Ok(());
                    }
                }
            },
        )?;
        self.semicolon()
    }
    /// One declarator outside the special places of for heads.
    fn declarator(&mut self, kind: DeclKind, need_init: bool) -> R<()> {
        let pattern = self.binding_target(Some(kind))?;
        if self.opt_p("=", false)? {
            self.assign()?;
        } else if pattern || need_init {
            return self.fail(false);
        }
        Ok(())
    }
    /// Identifier or pattern; tells whether it was a pattern.
    fn binding_target(&mut self, kind: Option<DeclKind>) -> R<bool> {
        if self.at_p("[", false)? || self.at_p("{", false)? {
            self.binding_pattern(kind)?;
            return Ok(true);
        }
        self.binding_ident(kind)?;
        Ok(false)
    }
    fn binding_pattern(&mut self, kind: Option<DeclKind>) -> R<()> {
        self.deeper(|s| s.binding_pattern_(kind))
    }
    fn binding_pattern_(&mut self, kind: Option<DeclKind>) -> R<()> {
        if self.opt_p("[", false)? {
            loop {
                while self.opt_p(",", false)? {}
                if self.opt_p("...", false)? {
                    self.binding_target(kind)?;
                    break;
                }
                if self.at_p("]", false)? {
                    break;
                }
                self.binding_element(kind)?;
                if !self.opt_p(",", false)? {
                    break;
                }
            }
            self.eat_p("]")
        } else {
            self.eat_p("{")?;
            loop {
                if self.at_p("}", false)? {
                    break;
                }
                if self.opt_p("...", false)? {
                    self.strct("object rest in a pattern");
                    self.binding_ident(kind)?;
                    break;
                }
                let t = self.peek(false)?;
                let n = self.peek_after(&t, false);
                let colon = match n {
                    Ok(ref n) => self.is_p(n, ":"),
                    Err(_) => false,
                };
                if t.kind == Kind::Ident && !colon {
                    self.binding_ident(kind)?;
                    if self.opt_p("=", false)? {
                        if self.ctx.arrow {
                            self.strct("shorthand default in arrow parameters");
                        }
                        self.with(|c| c.in_ok = true, |s| s.assign())?;
                    }
                } else {
                    self.property_name()?;
                    self.eat_p(":")?;
                    self.binding_element(kind)?;
                }
                if !self.opt_p(",", false)? {
                    break;
                }
            }
            self.eat_p("}")
        }
    }
    fn binding_element(&mut self, kind: Option<DeclKind>) -> R<()> {
        self.binding_target(kind)?;
        if self.opt_p("=", false)? {
            self.with(|c| c.in_ok = true, |s| s.assign())?;
        }
        Ok(())
    }

    fn var_statement(&mut self) -> R<()> {
        self.eat_k("var")?;
        self.with(
            |c| c.in_ok = true,
            |s| {
                loop {
                    s.declarator(DeclKind::Var, false)?;
                    if !s.opt_p(",", false)? {
                        return Ok(());
                    }
                }
            },
        )?;
        self.semicolon()
    }

    fn statement(&mut self) -> R<()> {
        self.deeper(|s| s.statement_())
    }
    fn statement_(&mut self) -> R<()> {
        let t = self.peek(true)?;
        if let Kind::Punct(p) = t.kind {
            match p {
                "{" => return self.block(),
                ";" => {
                    self.take(t);
                    return Ok(());
                }
                _ => {}
            }
        }
        if t.kind == Kind::Ident {
            match self.txt(&t) {
                "var" => return self.var_statement(),
                "if" => {
                    self.take(t);
                    self.paren_expr()?;
                    self.statement()?;
                    if self.opt_k("else", true)? {
                        self.statement()?;
                    }
                    return Ok(());
                }
                "for" => return self.for_statement(),
                "while" => {
                    self.take(t);
                    self.paren_expr()?;
                    return self.with(|c| c.in_loop = true, |s| s.statement());
                }
                "do" => {
                    self.take(t);
                    self.with(|c| c.in_loop = true, |s| s.statement())?;
                    if !self.opt_k("while", true)? {
                        return self.fail(true);
                    }
                    self.paren_expr()?;
                    self.opt_p(";", true)?;
                    return Ok(());
                }
                "continue" | "break" => return self.jump(),
                "return" => {
                    if !self.ctx.func {
                        self.early("return outside functions");
                    }
                    self.take(t);
                    let n = self.peek(true)?;
                    if !n.nl && !self.is_p(&n, ";") && !self.is_p(&n, "}") && n.kind != Kind::Eof {
                        self.expression(true)?;
                    }
                    return self.semicolon();
                }
                "with" => {
                    self.early("with");
                    self.take(t);
                    self.paren_expr()?;
                    return self.statement();
                }
                "switch" => return self.switch(),
                "throw" => {
                    self.take(t);
                    let n = self.peek(true)?;
                    if n.nl {
                        return self.fail(true);
                    }
                    self.expression(true)?;
                    return self.semicolon();
                }
                "try" => return self.try_statement(),
                "debugger" => {
                    self.take(t);
                    return self.semicolon();
                }
                "function" | "class" => {
                    // Statement lists take these as declarations. Elsewhere they are not statements; the parser lets them pass as
                    // expressions.
                    self.strct("declaration in statement position");
                    return self.expr_or_function();
                }
                "let" => {
                    self.strct("let as a name");
                }
                "async" => {
                    if self.is_async_function(&t)? {
                        self.strct("declaration in statement position");
                        return self.expr_or_function();
                    }
                }
                _ => {}
            }
            if self.ident_ok(&t) {
                let n = self.peek_after(&t, false);
                if let Ok(n) = n {
                    if self.is_p(&n, ":") {
                        return self.labelled();
                    }
                }
            }
        }
        self.expression(true)?;
        self.semicolon()
    }
    fn expr_or_function(&mut self) -> R<()> {
        let s = self.save();
        if self.expression(true).is_ok() && self.semicolon().is_ok() {
            return Ok(());
        }
        self.restore(s);
        if self.at_k("class", true)? {
            return self.fail(true);
        }
        self.function(true, false)
    }

    fn labelled(&mut self) -> R<()> {
        // All labels of one statement, to know whether it is a loop.
        let base = self.labels.len();
        loop {
            let t = self.peek(true)?;
            if !self.ident_ok(&t) {
                break;
            }
            match self.peek_after(&t, false) {
                Ok(n) if self.is_p(&n, ":") => {}
                _ => break,
            }
            let s = self.take_ident(t);
            if self.labels[self.ctx.label_base..].iter().any(|l| l.0 == s) {
                self.early("duplicate label");
            }
            self.labels.push((s.to_string(), false));
            self.eat_p(":")?;
        }
        let t = self.peek(true)?;
        let is_loop = self.is_k(&t, "for") || self.is_k(&t, "while") || self.is_k(&t, "do");
        for l in self.labels[base..].iter_mut() {
            l.1 = is_loop;
        }
        let r = self.statement();
        self.labels.truncate(base);
        r
    }

    fn jump(&mut self) -> R<()> {
        let t = self.peek(true)?;
        let cont = self.is_k(&t, "continue");
        self.take(t);
        let n = self.peek(false)?;
        if !n.nl && self.ident_ok(&n) {
            let s = self.take_ident(n);
            let known = self.labels[self.ctx.label_base..].iter().any(|l| l.0 == s && (!cont || l.1));
            if !known {
                self.early("jump to an unknown label");
            }
        } else if !(self.ctx.in_loop || (!cont && self.ctx.in_switch)) {
            self.early("jump outside loops");
        }
        self.semicolon()
    }

    fn block(&mut self) -> R<()> {
        self.push_scope(false);
        let r = self.braces();
        self.pop_scope();
        r
    }
    fn braces(&mut self) -> R<()> {
        if !self.opt_p("{", true)? {
            return self.fail(true);
        }
        self.deeper(|s| {
            loop {
                if s.opt_p("}", true)? {
                    return Ok(());
                }
                let t = s.peek(true)?;
                if t.kind == Kind::Eof {
                    return s.fail(true);
                }
                s.list_item()?;
            }
        })
    }
    fn paren_expr(&mut self) -> R<()> {
        self.eat_p("(")?;
        self.expression(true)?;
        self.eat_p(")")
    }

    fn switch(&mut self) -> R<()> {
        self.eat_k("switch")?;
        self.paren_expr()?;
        self.eat_p("{")?;
        self.push_scope(false);
        let mut default = false;
        let r = self.with(
            |c| c.in_switch = true,
            |s| loop {
                if s.opt_p("}", true)? {
                    return Ok(());
                }
                if s.opt_k("case", true)? {
                    s.expression(true)?;
                    s.eat_p(":")?;
                } else if s.at_k("default", true)? && !default {
                    s.opt_k("default", true)?;
                    default = true;
                    s.eat_p(":")?;
                } else {
                    s.late = true;
                    return s.fail(true);
                }
                loop {
                    let t = s.peek(true)?;
                    if s.is_p(&t, "}") || s.is_k(&t, "case") || s.is_k(&t, "default") {
                        break;
                    }
                    if t.kind == Kind::Eof {
                        return s.fail(true);
                    }
                    s.list_item()?;
                }
            },
        );
        self.pop_scope();
        r
    }

    fn try_statement(&mut self) -> R<()> {
        self.eat_k("try")?;
        self.block()?;
        let mut handled = false;
        if self.opt_k("catch", true)? {
            handled = true;
            self.eat_p("(")?;
            self.push_scope(false);
            let r = (|| {
                self.binding_target(Some(DeclKind::Catch))?;
                self.eat_p(")")?;
                // Same scope as the parameter: lexical names of the body may not repeat it.
                self.braces()
            })();
            self.pop_scope();
            r?;
        }
        if self.opt_k("finally", true)? {
            handled = true;
            self.block()?;
        }
        if !handled {
            return self.fail(true);
        }
        Ok(())
    }

    fn for_statement(&mut self) -> R<()> {
        self.push_scope(false);
        let r = self.for_();
        self.pop_scope();
        r
    }
    fn for_(&mut self) -> R<()> {
        self.eat_k("for")?;
        if self.at_k("await", false)? {
            if !self.ctx.await_ {
                return self.fail(false);
            }
            self.strct("for await");
            self.opt_k("await", false)?;
        }
        self.eat_p("(")?;
        let t = self.peek(true)?;
        let mut kind = None;
        if self.is_k(&t, "var") {
            kind = Some(DeclKind::Var);
        } else if self.is_k(&t, "const") {
            kind = Some(DeclKind::Lex);
        } else if self.is_k(&t, "let") {
            if let Ok(n) = self.peek_after(&t, false) {
                if self.is_k(&n, "in") {
                    self.strct("let as a name");
                } else if n.kind == Kind::Ident || self.is_p(&n, "[") || self.is_p(&n, "{") {
                    kind = Some(DeclKind::Lex);
                } else {
                    self.strct("let as a name");
                }
            }
        }
        if let Some(k) = kind {
            let konst = self.is_k(&t, "const");
            self.take(t);
            let pattern = self.binding_target(Some(k))?;
            let n = self.peek(false)?;
            if self.is_k(&n, "in") || self.is_k(&n, "of") {
                return self.for_rest_in_of();
            }
            self.with(
                |c| c.in_ok = false,
                |s| {
                    if s.opt_p("=", false)? {
                        s.assign()?;
                    } else if pattern || konst {
                        s.late = true;
                        return s.fail(false);
                    }
                    while s.opt_p(",", false)? {
                        s.declarator(k, konst)?;
                    }
                    Ok(())
                },
            )?;
            return self.for_rest_semi();
        }
        self.for_expression()
    }
    fn for_expression(&mut self) -> R<()> {
        let t = self.peek(true)?;
        if self.is_p(&t, ";") {
            return self.for_rest_semi();
        }
        let shape = self.with(|c| c.in_ok = false, |s| s.comma_list())?;
        let n = self.peek(false)?;
        if self.is_k(&n, "in") || self.is_k(&n, "of") {
            if !shape.target() {
                self.strct("for head target");
            }
            if self.is_k(&t, "async") && self.is_k(&n, "of") {
                self.strct("for (async of");
            }
            return self.for_rest_in_of();
        }
        self.for_rest_semi()
    }
    fn for_rest_in_of(&mut self) -> R<()> {
        let t = self.peek(false)?;
        let of = self.is_k(&t, "of");
        self.take(t);
        if of {
            self.with(|c| c.in_ok = true, |s| s.assign())?;
        } else {
            self.expression(true)?;
        }
        self.eat_p(")")?;
        self.with(|c| c.in_loop = true, |s| s.statement())
    }
    fn for_rest_semi(&mut self) -> R<()> {
        self.eat_p(";")?;
        if !self.at_p(";", true)? {
            self.expression(true)?;
        }
        self.eat_p(";")?;
        if !self.at_p(")", true)? {
            self.expression(true)?;
        }
        self.eat_p(")")?;
        self.with(|c| c.in_loop = true, |s| s.statement())
    }

    // ---- functions and classes

    /// `declaration`: declares its name; `anonymous_ok`: default exports and expressions.
    fn function(&mut self, declaration: bool, anonymous_ok: bool) -> R<()> {
        self.deeper(|s| s.function_(declaration, anonymous_ok))
    }
    fn function_(&mut self, declaration: bool, anonymous_ok: bool) -> R<()> {
        let asy = self.opt_k("async", true)?;
        if !self.opt_k("function", true)? {
            return self.fail(true);
        }
        let gen = self.opt_p("*", false)?;
        if asy && gen {
            self.strct("async generator");
        }
        let t = self.peek(false)?;
        if self.ident_ok(&t) {
            self.binding_ident(if declaration { Some(DeclKind::Lex) } else { None })?;
            // In function bodies these are var-like: repeats are fine there.
            if declaration && self.scopes.last().map_or(false, |s| s.1) && self.scopes.len() > 1 {
                let d = self.decls.last_mut().unwrap();
                d.kind = DeclKind::Var;
            }
        } else if !anonymous_ok {
            return self.fail(false);
        }
        self.function_rest(asy, gen, |_| {})
    }
    fn function_rest(&mut self, asy: bool, gen: bool, more: impl FnOnce(&mut Ctx)) -> R<()> {
        self.push_scope(true);
        let base = self.labels.len();
        let r = self.with(
            |c| {
                c.yield_ = gen;
                c.await_ = asy;
                c.func = true;
                c.new_target = true;
                c.super_prop = false;
                c.super_call = false;
                c.in_loop = false;
                c.in_switch = false;
                c.in_ok = true;
                c.label_base = base;
                c.params = false;
                    c.arrow = false;
                more(c);
            },
            |s| {
                s.eat_p("(")?;
                let simple = s.with(|c| c.params = true, |s| s.params())?;
                s.eat_p(")")?;
                s.body(simple)
            },
        );
        self.pop_scope();
        r
    }
    /// Up to the closing parenthesis; tells whether the list is simple.
    fn params(&mut self) -> R<bool> {
        let mut simple = true;
        loop {
            let t = self.peek(false)?;
            if self.is_p(&t, ")") {
                break;
            }
            if self.opt_p("...", false)? {
                simple = false;
                self.binding_target(Some(DeclKind::Param))?;
                break;
            }
            simple &= !self.binding_target(Some(DeclKind::Param))?;
            if self.opt_p("=", false)? {
                simple = false;
                self.with(|c| c.in_ok = true, |s| s.assign())?;
            }
            if !self.opt_p(",", false)? {
                break;
            }
        }
        Ok(simple)
    }
    fn body(&mut self, simple: bool) -> R<()> {
        if !simple {
            let t = self.peek(false)?;
            if self.is_p(&t, "{") {
                let mut at = t;
                // Directive prologue.
                while let Ok(n) = self.peek_after(&at, true) {
                    if n.kind == Kind::Str {
                        if &self.text[n.start + 1..n.end - 1] == "use strict" {
                            self.early("use strict with such parameters");
                        }
                    } else if !self.is_p(&n, ";") {
                        break;
                    }
                    at = n;
                }
            }
        }
        self.with(|c| c.in_ok = true, |s| s.braces())
    }

    fn class(&mut self, declaration: bool, anonymous_ok: bool) -> R<()> {
        self.deeper(|s| s.class_(declaration, anonymous_ok))
    }
    fn class_(&mut self, declaration: bool, anonymous_ok: bool) -> R<()> {
        if !self.opt_k("class", true)? {
            return self.fail(true);
        }
        let t = self.peek(false)?;
        if self.ident_ok(&t) {
            self.binding_ident(if declaration { Some(DeclKind::Lex) } else { None })?;
        } else if !anonymous_ok {
            return self.fail(false);
        }
        let mut derived = false;
        if self.opt_k("extends", false)? {
            derived = true;
            let t = self.peek(true)?;
            self.lhs(true)?;
            let _ = t;
        }
        self.eat_p("{")?;
        let mut constructors = 0;
        loop {
            let t = self.peek(false)?;
            if self.opt_p(";", false)? {
                continue;
            }
            if self.opt_p("}", false)? {
                return Ok(());
            }
            // static?
            let mut is_static = false;
            if self.is_k(&t, "static") {
                let n = self.peek_after(&t, false)?;
                if !self.is_p(&n, "(") {
                    is_static = true;
                    self.take(t);
                }
            }
            let m = self.method_head()?;
            if !is_static && m.name == Some("constructor") {
                if m.get || m.set || m.asy || m.gen {
                    self.early("special constructor");
                } else {
                    constructors += 1;
                    if constructors > 1 {
                        self.early("two constructors");
                    }
                }
            }
            if is_static && m.name == Some("prototype") {
                self.early("static prototype");
            }
            let ctor = !is_static && derived && m.name == Some("constructor");
            if !self.at_p("(", false)? {
                return self.fail(false);
            }
            self.method_tail(&m, ctor)?;
        }
    }

    /// Prefix words and the name of a method or property.
    fn method_head(&mut self) -> R<Head<'t>> {
        let mut h = Head { get: false, set: false, asy: false, gen: false, name: None, short: None };
        let t = self.peek(false)?;
        if t.kind == Kind::Ident {
            let s = self.txt(&t);
            if s == "get" || s == "set" || s == "async" {
                let n = self.peek_after(&t, false)?;
                let names = n.kind == Kind::Ident || n.kind == Kind::Str || matches!(n.kind, Kind::Num(_)) || self.is_p(&n, "[");
                if s == "async" {
                    if !n.nl && (names || self.is_p(&n, "*")) {
                        h.asy = true;
                    }
                } else if names {
                    h.get = s == "get";
                    h.set = s == "set";
                }
                if h.asy || h.get || h.set {
                    self.take(t);
                }
            }
        }
        if !h.get && !h.set && self.opt_p("*", false)? {
            if h.asy {
                self.strct("async generator method");
            }
            h.gen = true;
        }
        let t = self.peek(false)?;
        if t.kind == Kind::Ident && !(h.get || h.set || h.asy || h.gen) {
            h.short = Some(self.txt(&t));
        }
        if t.kind == Kind::Ident {
            h.name = Some(self.txt(&t));
        } else if t.kind == Kind::Str {
            h.name = Some(&self.text[t.start + 1..t.end - 1]);
        }
        self.property_name()?;
        Ok(h)
    }
    fn property_name(&mut self) -> R<()> {
        let t = self.peek(false)?;
        match t.kind {
            Kind::Ident | Kind::Str | Kind::Num(_) => {
                self.take(t);
                Ok(())
            }
            Kind::Punct("[") => {
                self.take(t);
                self.with(|c| c.in_ok = true, |s| s.assign())?;
                self.eat_p("]")
            }
            _ => self.fail(false),
        }
    }
    fn method_tail(&mut self, m: &Head<'t>, ctor: bool) -> R<()> {
        let set_ctx = |c: &mut Ctx| {
            c.super_prop = true;
            c.super_call = ctor;
        };
        if m.get || m.set {
            let set = m.set;
            self.push_scope(true);
            let base = self.labels.len();
            let r = self.with(
                |c| {
                    c.yield_ = false;
                    c.await_ = false;
                    c.func = true;
                    c.new_target = true;
                    c.in_loop = false;
                    c.in_switch = false;
                    c.in_ok = true;
                    c.label_base = base;
                    c.params = false;
                    c.arrow = false;
                    set_ctx(c);
                },
                |s| {
                    s.eat_p("(")?;
                    let mut simple = true;
                    if set {
                        simple = !s.binding_target(Some(DeclKind::Param))?;
                        if s.opt_p("=", false)? {
                            simple = false;
                            s.strct("default for a setter parameter");
                            s.assign()?;
                        }
                    }
                    s.eat_p(")")?;
                    s.body(simple)
                },
            );
            self.pop_scope();
            r
        } else {
            self.function_rest(m.asy, m.gen, set_ctx)
        }
    }

    // ---- expressions

    fn expression(&mut self, in_ok: bool) -> R<Shape> {
        self.with(|c| c.in_ok = in_ok, |s| s.comma_list())
    }
    fn comma_list(&mut self) -> R<Shape> {
        let mut shape = self.assign()?;
        while self.opt_p(",", false)? {
            self.assign()?;
            shape = Shape::Other;
        }
        Ok(shape)
    }

    fn ctx_key(&self) -> u8 {
        self.ctx.in_ok as u8 | (self.ctx.yield_ as u8) << 1 | (self.ctx.await_ as u8) << 2
    }

    fn assign(&mut self) -> R<Shape> {
        self.deeper(|s| s.assign_())
    }
    fn assign_(&mut self) -> R<Shape> {
        let t = self.peek(true)?;
        if self.ctx.yield_ && self.is_k(&t, "yield") {
            return self.yield_();
        }
        // Arrow functions.
        if self.ident_ok(&t) {
            if let Ok(n) = self.peek_after(&t, false) {
                if self.is_p(&n, "=>") && !n.nl {
                    return self.arrow_ident(false);
                }
                if self.is_k(&t, "async") && !n.nl {
                    if self.ident_ok(&n) {
                        if let Ok(m) = self.peek_after(&n, false) {
                            if self.is_p(&m, "=>") && !m.nl {
                                self.take(t);
                                return self.arrow_ident(true);
                            }
                        }
                        if self.is_k(&n, "of") {
                            self.strct("async of");
                        }
                    } else if self.is_p(&n, "(") {
                        if let Some(s) = self.try_arrow(true)? {
                            return Ok(s);
                        }
                    }
                }
            }
        } else if self.is_p(&t, "(") {
            if let Some(s) = self.try_arrow(false)? {
                return Ok(s);
            }
        }
        let shape = self.conditional()?;
        let n = self.peek(false)?;
        if let Kind::Punct(p) = n.kind {
            match p {
                "=" => {
                    let mut out = Shape::AssignEq;
                    if !shape.target() {
                        if shape == Shape::BadIdent || matches!(shape, Shape::Lit(_)) {
                            self.early("assignment target");
                        } else {
                            self.strct("assignment target");
                        }
                        out = Shape::Other;
                    }
                    self.take(n);
                    self.assign()?;
                    return Ok(out);
                }
                "*=" | "/=" | "%=" | "+=" | "-=" | "<<=" | ">>=" | ">>>=" | "&=" | "^=" | "|=" | "**=" => {
                    if !shape.simple() {
                        if shape == Shape::BadIdent {
                            self.early("assignment target");
                        } else {
                            self.strct("assignment target");
                        }
                    }
                    self.take(n);
                    self.assign()?;
                    return Ok(Shape::Other);
                }
                "=>" if !n.nl => {
                    // Parameters must be an identifier or a parenthesised list; the parser takes any operand.
                    self.strct("arrow parameters");
                    self.take(n);
                    self.push_scope(true);
                    let asy = self.is_k(&t, "async");
                    let r = self.arrow_body(asy, true);
                    self.pop_scope();
                    r?;
                    return Ok(Shape::Other);
                }
                _ => {}
            }
        }
        Ok(shape)
    }
    fn arrow_ident(&mut self, asy: bool) -> R<Shape> {
        self.push_scope(true);
        let r = (|| {
            self.binding_ident(Some(DeclKind::Param))?;
            self.eat_p("=>")?;
            self.arrow_body(asy, true)
        })();
        self.pop_scope();
        r?;
        Ok(Shape::Other)
    }
    fn arrow_body(&mut self, await_: bool, simple: bool) -> R<()> {
        let base = self.labels.len();
        if self.at_p("{", true)? {
            self.with(
                |c| {
                    c.yield_ = false;
                    c.await_ = await_;
                    c.func = true;
                    c.in_loop = false;
                    c.in_switch = false;
                    c.in_ok = true;
                    c.label_base = base;
                    c.params = false;
                    c.arrow = false;
                },
                |s| s.body(simple),
            )
        } else {
            self.with(
                |c| {
                    c.yield_ = false;
                    c.await_ = await_;
                    c.params = false;
                    c.arrow = false;
                },
                |s| s.assign().map(|_| ()),
            )
        }
    }
    /// `(params) =>` or `async (params) =>`; nothing consumed if it is not one.
    fn try_arrow(&mut self, asy: bool) -> R<Option<Shape>> {
        let key = (self.pos, self.ctx_key() | (asy as u8) << 3);
        if self.failed_arrows.contains(&key) {
            return Ok(None);
        }
        let save = self.save();
        if asy {
            self.opt_k("async", true)?;
        }
        self.push_scope(true);
        let ok = (|| -> R<bool> {
            self.eat_p("(")?;
            let simple = self.with(
                |c| {
                    c.yield_ = false;
                    c.params = true;
                    c.arrow = true;
                },
                |s| s.params(),
            )?;
            // Trailing comma?
            if self.toks.last().map_or(false, |t| matches!(t.kind, Kind::Punct(","))) {
                self.strct("trailing comma in arrow parameters");
            }
            self.eat_p(")")?;
            let n = self.peek(false)?;
            if !self.is_p(&n, "=>") || n.nl {
                return Err(Stop);
            }
            self.take(n);
            Ok(simple)
        })();
        let simple = match ok {
            Err(_) => {
                self.restore(save);
                self.failed_arrows.insert(key);
                return Ok(None);
            }
            Ok(s) => s,
        };
        let r = self.arrow_body(asy, simple);
        self.pop_scope();
        r?;
        Ok(Some(Shape::Other))
    }

    fn yield_(&mut self) -> R<Shape> {
        if self.ctx.params {
            self.early("yield in parameters");
        }
        self.opt_k("yield", true)?;
        let t = self.peek(true)?;
        if t.nl || t.kind == Kind::Eof {
            return Ok(Shape::Other);
        }
        if self.is_p(&t, "*") {
            self.take(t);
            self.assign()?;
            return Ok(Shape::Other);
        }
        if let Kind::Punct(p) = t.kind {
            if [")", "]", "}", ",", ";", ":"].contains(&p) || p == "=>" || (p.ends_with('=') && p != "/=") {
                return Ok(Shape::Other);
            }
        }
        if self.is_k(&t, "in") || self.is_k(&t, "of") {
            if self.is_k(&t, "of") {
                // An identifier, unless in a for head.
                let s = self.save();
                if self.assign().is_ok() {
                    return Ok(Shape::Other);
                }
                self.restore(s);
            }
            self.strct("yield in/of");
            return Ok(Shape::Other);
        }
        self.assign()?;
        Ok(Shape::Other)
    }

    fn conditional(&mut self) -> R<Shape> {
        let shape = self.binary()?;
        if self.opt_p("?", false)? {
            self.with(|c| c.in_ok = true, |s| s.assign())?;
            self.eat_p(":")?;
            self.assign()?;
            return Ok(Shape::Other);
        }
        Ok(shape)
    }
    fn binary(&mut self) -> R<Shape> {
        let (mut shape, mut unary) = self.unary()?;
        loop {
            let t = self.peek(false)?;
            let op = match t.kind {
                Kind::Punct(p) => match p {
                    "**" => {
                        if unary {
                            self.strct("unary operand of **");
                        }
                        true
                    }
                    "||" | "&&" | "|" | "^" | "&" | "==" | "!=" | "===" | "!==" | "<" | ">" | "<=" | ">=" | "<<" | ">>" | ">>>" | "+" | "-"
                    | "*" | "/" | "%" => true,
                    _ => false,
                },
                Kind::Ident => {
                    let s = self.txt(&t);
                    s == "instanceof" || (s == "in" && self.ctx.in_ok)
                }
                _ => false,
            };
            if !op {
                return Ok(shape);
            }
            self.take(t);
            let (_, u) = self.unary()?;
            unary = u;
            shape = Shape::Other;
        }
    }
    /// Also: was it an operator that may not be the left operand of `**`?
    fn unary(&mut self) -> R<(Shape, bool)> {
        self.deeper(|s| s.unary_())
    }
    fn unary_(&mut self) -> R<(Shape, bool)> {
        let t = self.peek(true)?;
        if let Kind::Punct(p) = t.kind {
            match p {
                "+" | "-" | "~" | "!" => {
                    self.take(t);
                    self.unary()?;
                    return Ok((Shape::Other, true));
                }
                "++" | "--" => {
                    self.take(t);
                    let (shape, _) = self.unary()?;
                    if !shape.simple() {
                        self.strct("update target");
                    }
                    return Ok((Shape::Other, false));
                }
                _ => {}
            }
        }
        if t.kind == Kind::Ident {
            match self.txt(&t) {
                "typeof" | "void" => {
                    self.take(t);
                    self.unary()?;
                    return Ok((Shape::Other, true));
                }
                "delete" => {
                    self.take(t);
                    let (shape, _) = self.unary()?;
                    if matches!(shape, Shape::Ident | Shape::BadIdent) {
                        self.early("delete of a name");
                    }
                    return Ok((Shape::Other, true));
                }
                "await" if self.ctx.await_ => {
                    if self.ctx.params {
                        self.strct("await in parameters");
                    }
                    self.take(t);
                    self.unary()?;
                    return Ok((Shape::Other, true));
                }
                _ => {}
            }
        }
        let shape = self.lhs(true)?;
        let n = self.peek(false)?;
        if !n.nl && (self.is_p(&n, "++") || self.is_p(&n, "--")) {
            if !shape.simple() {
                self.strct("update target");
            }
            self.take(n);
            return Ok((Shape::Other, false));
        }
        Ok((shape, false))
    }

    fn lhs(&mut self, calls: bool) -> R<Shape> {
        self.deeper(|s| s.lhs_(calls))
    }
    fn lhs_(&mut self, calls: bool) -> R<Shape> {
        let t = self.peek(true)?;
        let mut shape;
        if self.is_k(&t, "new") {
            self.take(t);
            if self.opt_p(".", true)? {
                if !self.ctx.new_target {
                    self.early("new.target outside functions");
                }
                self.eat_k("target")?;
                shape = Shape::Other;
            } else {
                let n = self.peek(true)?;
                if self.is_k(&n, "super") {
                    // `new super.x()`, but not `new super()`.
                    if let Ok(m) = self.peek_after(&n, false) {
                        if self.is_p(&m, "(") {
                            self.strct("new super()");
                        }
                    }
                }
                self.lhs(false)?;
                // The arguments of this `new`, if present; without them it is a NewExpression, which nothing but calls of an
                // enclosing `new` may follow. `new a` `.b` never arises: the operand takes the member accesses.
                if self.at_p("(", false)? {
                    if !calls {
                        // Belongs to this `new`, whatever encloses it.
                    }
                    self.args()?;
                }
                shape = Shape::Other;
            }
        } else if self.is_k(&t, "super") {
            if !self.ctx.super_prop {
                self.early("super outside methods");
            }
            self.take(t);
            let n = self.peek(false)?;
            if self.is_p(&n, "(") {
                if !self.ctx.super_call {
                    self.early("super call outside constructors");
                }
            } else if !(self.is_p(&n, ".") || self.is_p(&n, "[")) {
                self.strct("lone super");
            }
            shape = Shape::Other;
        } else {
            shape = self.primary()?;
        }
        loop {
            let t = self.peek(false)?;
            match t.kind {
                Kind::Punct(".") => {
                    self.take(t);
                    let n = self.peek(false)?;
                    if n.kind != Kind::Ident {
                        return self.fail(false);
                    }
                    self.take(n);
                    shape = Shape::Member;
                }
                Kind::Punct("[") => {
                    self.take(t);
                    self.expression(true)?;
                    self.eat_p("]")?;
                    shape = Shape::Member;
                }
                Kind::Punct("(") if calls => {
                    self.args()?;
                    shape = Shape::Other;
                }
                Kind::Template(_) => {
                    self.template(true)?;
                    shape = Shape::Other;
                }
                _ => return Ok(shape),
            }
        }
    }
    fn args(&mut self) -> R<()> {
        self.eat_p("(")?;
        self.with(
            |c| c.in_ok = true,
            |s| loop {
                if s.opt_p(")", true)? {
                    return Ok(());
                }
                s.opt_p("...", true)?;
                s.assign()?;
                if !s.opt_p(",", false)? {
                    return s.eat_p(")");
                }
            },
        )
    }
    fn template(&mut self, tagged: bool) -> R<()> {
        let t = self.peek(true)?;
        let kind = t.kind.clone();
        if t.odd && !tagged {
            self.early("escape in template");
        }
        self.take(t);
        match kind {
            Kind::Template(Tf::Whole) => Ok(()),
            Kind::Template(Tf::Head) => loop {
                self.expression(true)?;
                self.peek(false)?;
                let t = self.peek(false)?;
                if !self.is_p(&t, "}") {
                    return self.fail(false);
                }
                let t = self.read(self.pos, false, true)?;
                if t.odd && !tagged {
                    self.early("escape in template");
                }
                let last = t.kind == Kind::Template(Tf::Tail);
                self.take(t);
                if last {
                    return Ok(());
                }
            },
            _ => self.fail(true),
        }
    }

    fn primary(&mut self) -> R<Shape> {
        let t = self.peek(true)?;
        match t.kind {
            Kind::Num(_) | Kind::Str => {
                self.take(t);
                Ok(Shape::Other)
            }
            Kind::Regex(close) => {
                if !regex_surely_valid(&self.text[t.start + 1..close], &self.text[close + 1..t.end]) {
                    self.early("regular expression not known to be valid");
                }
                self.take(t);
                Ok(Shape::Other)
            }
            Kind::Template(Tf::Whole) | Kind::Template(Tf::Head) => {
                self.template(false)?;
                Ok(Shape::Other)
            }
            Kind::Punct("[") => self.array(),
            Kind::Punct("{") => self.object(),
            Kind::Punct("(") => self.paren(),
            Kind::Ident => {
                let s = self.txt(&t);
                match s {
                    "this" | "null" | "true" | "false" => {
                        self.take(t);
                        return Ok(Shape::Other);
                    }
                    "function" => {
                        self.function(false, true)?;
                        return Ok(Shape::Other);
                    }
                    "class" => {
                        self.class(false, true)?;
                        return Ok(Shape::Other);
                    }
                    _ => {}
                }
                if self.is_async_function(&t)? {
                    self.function(false, true)?;
                    return Ok(Shape::Other);
                }
                if !self.ident_ok(&t) {
                    return self.fail(true);
                }
                let s = self.take_ident(t);
                Ok(if s == "eval" || s == "arguments" { Shape::BadIdent } else { Shape::Ident })
            }
            _ => self.fail(true),
        }
    }
    fn array(&mut self) -> R<Shape> {
        self.eat_p("[")?;
        let mut pat = true;
        self.with(
            |c| c.in_ok = true,
            |s| {
                loop {
                    if s.opt_p(",", true)? {
                        continue;
                    }
                    if s.opt_p("]", true)? {
                        return Ok(());
                    }
                    let spread = s.opt_p("...", true)?;
                    let shape = s.assign()?;
                    if spread {
                        pat &= shape.target();
                        // a rest element is the last thing of a pattern
                        pat &= s.at_p("]", false)?;
                    } else {
                        pat &= shape.element();
                    }
                    if !s.opt_p(",", false)? {
                        return s.eat_p("]");
                    }
                }
            },
        )?;
        Ok(Shape::Lit(pat))
    }
    fn object(&mut self) -> R<Shape> {
        self.eat_p("{")?;
        let mut pat = true;
        let mut protos = 0;
        self.with(
            |c| c.in_ok = true,
            |s| {
                loop {
                    if s.opt_p("}", false)? {
                        return Ok(());
                    }
                    if s.opt_p("...", false)? {
                        let shape = s.assign()?;
                        pat &= shape.simple();
                        if pat && s.at_p("}", false)? {
                            // As a pattern this is object rest.
                        } else {
                            pat = false;
                        }
                    } else {
                        let m = s.method_head()?;
                        if m.plain() && s.opt_p(":", false)? {
                            if m.name == Some("__proto__") {
                                protos += 1;
                            }
                            let shape = s.assign()?;
                            pat &= shape.element();
                        } else if s.at_p("(", false)? {
                            s.method_tail(&m, false)?;
                            pat = false;
                        } else if let Some(name) = m.short {
                            if is_reserved(name) {
                                return s.fail(false);
                            }
                            if STRICT_RESERVED.contains(&name) {
                                s.early("strict reserved word");
                            }
                            if name == "eval" || name == "arguments" {
                                pat = false;
                            }
                            if s.opt_p("=", false)? {
                                s.strct("shorthand with default");
                                s.assign()?;
                            }
                        } else {
                            return s.fail(false);
                        }
                    }
                    if !s.opt_p(",", false)? {
                        return s.eat_p("}");
                    }
                }
            },
        )?;
        if protos > 1 {
            self.early("duplicate __proto__");
        }
        Ok(Shape::Lit(pat))
    }
    /// Parenthesised expression, including what only arrow parameters may contain.
    fn paren(&mut self) -> R<Shape> {
        self.eat_p("(")?;
        self.deeper(|s| {
            s.with(
                |c| c.in_ok = true,
                |s| {
                    let mut shape = Shape::Other;
                    let mut n = 0;
                    loop {
                        if s.at_p(")", true)? {
                            if n == 0 {
                                s.strct("empty parentheses");
                                s.opt_p(")", true)?;
                                return Ok(Shape::Other);
                            }
                            s.strct("trailing comma in parentheses");
                            s.opt_p(")", true)?;
                            return Ok(Shape::Other);
                        }
                        if s.opt_p("...", true)? {
                            s.strct("rest in parentheses");
                            s.binding_target(None)?;
                            s.eat_p(")")?;
                            return Ok(Shape::Other);
                        }
                        let sh = s.assign()?;
                        shape = if n == 0 { sh } else { Shape::Other };
                        n += 1;
                        if !s.opt_p(",", false)? {
                            break;
                        }
                    }
                    s.eat_p(")")?;
                    Ok(match shape {
                        Shape::Lit(_) | Shape::AssignEq => Shape::Other,
                        x => x,
                    })
                },
            )
        })
    }
}

struct Head<'t> {
    get: bool,
    set: bool,
    asy: bool,
    gen: bool,
    name: Option<&'t str>,
    short: Option<&'t str>,
}
impl<'t> Head<'t> {
    fn plain(&self) -> bool {
        !(self.get || self.set || self.asy || self.gen)
    }
}

/// Conservative: true only for patterns that are certainly valid with these flags.
pub fn regex_surely_valid(p: &str, flags: &str) -> bool {
    let f = flags.as_bytes();
    for (i, c) in f.iter().enumerate() {
        if !b"gimsuy".contains(c) || f[..i].contains(c) {
            return false;
        }
    }
    let unicode = flags.contains('u');
    let cs: Vec<char> = p.chars().collect();
    let mut depth = 0;
    let mut atom = false;
    let mut i = 0;
    while i < cs.len() {
        match cs[i] {
            '\\' => {
                let c = match cs.get(i + 1) {
                    Some(c) => *c,
                    None => return false,
                };
                if !"dDwWsSnrtfv/\\.*+?()[]{}|^$".contains(c) {
                    return false;
                }
                i += 1;
                atom = true;
            }
            '[' => {
                i += 1;
                if cs.get(i) == Some(&'^') {
                    i += 1;
                }
                loop {
                    match cs.get(i) {
                        None => return false,
                        Some(']') => break,
                        Some('-') => return false,
                        Some('\\') => {
                            match cs.get(i + 1) {
                                Some(c) if "dDwWsSnrtfv/\\.*+?()[]{}|^$".contains(*c) => {}
                                _ => return false,
                            }
                            i += 2;
                        }
                        _ => i += 1,
                    }
                }
                atom = true;
            }
            '(' => {
                if cs.get(i + 1) == Some(&'?') {
                    return false;
                }
                depth += 1;
                atom = false;
            }
            ')' => {
                if depth == 0 {
                    return false;
                }
                depth -= 1;
                atom = true;
            }
            '*' | '+' | '?' => {
                if !atom {
                    return false;
                }
                atom = false;
            }
            '|' | '^' | '$' => atom = false,
            '{' | '}' | ']' => return false,
            c => {
                if unicode && !c.is_ascii() {
                    return false;
                }
                atom = true;
            }
        }
        i += 1;
    }
    depth == 0
}

#[allow(dead_code)]
fn _unused(n: Num) -> Num {
    n
}
