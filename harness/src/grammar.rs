//! The documented grammar as a specification: a strict parser that derives the prescribed event trace,
//! a loose recogniser (every word may be a name, every grouping tried) and a generator.
use crate::dump::KW_TEXTS;
use crate::ev::{Ev, K};
use crate::lex::{unescape, Cls, Tok};
use crate::pool::Pool;
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Id,
    ArgName,
    AttrName,
    OpName,
    TypeId,
    Dec,
    Hex,
    Oct,
    Float,
    Str,
}

#[derive(Debug)]
pub enum G {
    Term(&'static str),
    Class(Class),
    Rule(usize),
    Wrap(&'static str, &'static str, &'static str, Vec<G>),
    List { id: usize, sep: &'static str, smin: usize, lmin: usize, trailing: bool, body: Vec<G> },
    Rep(usize, Vec<G>),
    Null(usize, Vec<G>),
    Opt { id: usize, loose_only: bool, body: Vec<G> },
    Absent,
}

#[derive(Debug)]
pub enum Body {
    Alias(Vec<G>),
    Struct(usize, Vec<Vec<G>>),
    Enum(usize, Vec<(&'static str, bool, G)>),
}

#[derive(Debug)]
pub struct Rule {
    pub name: &'static str,
    pub open: &'static str,
    pub body: Body,
}

pub struct Grammar {
    pub rules: Vec<Rule>,
    pub by_name: HashMap<&'static str, usize>,
    pub min_depth: Vec<usize>,
    pub n_choices: usize,
}

pub const ARG_KW: &[&str] = &[
    "async", "attribute", "callback", "const", "constructor", "deleter", "dictionary", "enum", "getter", "includes",
    "inherit", "interface", "iterable", "maplike", "mixin", "namespace", "partial", "readonly", "required", "setlike",
    "setter", "static", "stringifier", "typedef", "unrestricted",
];
pub const ATTR_KW: &[&str] = &["async", "required"];
pub const OP_KW: &[&str] = &["includes"];

pub fn is_kw(w: &str) -> bool {
    KW_TEXTS.contains(&w)
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}

struct DslParser<'x> {
    toks: Vec<&'x str>,
    p: usize,
    names: &'x HashMap<&'static str, usize>,
    ids: &'x mut usize,
}
impl<'x> DslParser<'x> {
    fn peek(&self) -> Option<&'x str> {
        self.toks.get(self.p).copied()
    }
    fn id(&mut self) -> usize {
        *self.ids += 1;
        *self.ids - 1
    }
    fn items(&mut self, stop: &[&str]) -> Vec<G> {
        let mut v = Vec::new();
        while let Some(t) = self.peek() {
            if stop.contains(&t) {
                break;
            }
            v.push(self.item());
        }
        v
    }
    fn item(&mut self) -> G {
        let t = self.toks[self.p];
        self.p += 1;
        let base = if t == "!" {
            G::Absent
        } else if t.starts_with('\'') {
            G::Term(leak(&t[1..t.len() - 1]))
        } else if self.peek() == Some("<") {
            self.p += 1;
            let body = self.items(&[">"]);
            assert_eq!(self.peek(), Some(">"), "unclosed < in grammar.txt");
            self.p += 1;
            match t {
                "Paren" => G::Wrap("Parenthesized", "(", ")", body),
                "Brack" => G::Wrap("Bracketed", "[", "]", body),
                "Brace" => G::Wrap("Braced", "{", "}", body),
                "Angle" => G::Wrap("Generics", "<", ">", body),
                "List0" => G::List { id: self.id(), sep: ",", smin: 0, lmin: 0, trailing: false, body },
                "List1" => G::List { id: self.id(), sep: ",", smin: 1, lmin: 0, trailing: false, body },
                "EnumList" => G::List { id: self.id(), sep: ",", smin: 1, lmin: 1, trailing: true, body },
                "OrList" => G::List { id: self.id(), sep: "or", smin: 2, lmin: 0, trailing: false, body },
                "Vec" => G::Rep(self.id(), body),
                "Null" => G::Null(self.id(), body),
                _ => panic!("unknown wrapper {}", t),
            }
        } else {
            match t {
                "ID" => G::Class(Class::Id),
                "ARGNAME" => G::Class(Class::ArgName),
                "ATTRNAME" => G::Class(Class::AttrName),
                "OPNAME" => G::Class(Class::OpName),
                "TYPEID" => G::Class(Class::TypeId),
                "DEC" => G::Class(Class::Dec),
                "HEX" => G::Class(Class::Hex),
                "OCT" => G::Class(Class::Oct),
                "FLOAT" => G::Class(Class::Float),
                "STR" => G::Class(Class::Str),
                _ => G::Rule(*self.names.get(t).unwrap_or_else(|| panic!("unknown rule {}", t))),
            }
        };
        match self.peek() {
            Some("?") => {
                self.p += 1;
                G::Opt { id: self.id(), loose_only: false, body: vec![base] }
            }
            Some("??") => {
                self.p += 1;
                G::Opt { id: self.id(), loose_only: true, body: vec![base] }
            }
            _ => base,
        }
    }
}

fn dsl_tokens(s: &str) -> Vec<&str> {
    let b = s.as_bytes();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\t' => i += 1,
            b'\'' => {
                let j = i + 1 + s[i + 1..].find('\'').unwrap();
                v.push(&s[i..=j]);
                i = j + 1;
            }
            b'?' if b.get(i + 1) == Some(&b'?') => {
                v.push("??");
                i += 2;
            }
            c if c.is_ascii_alphanumeric() || c == b'_' => {
                let mut j = i;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'_') {
                    j += 1;
                }
                v.push(&s[i..j]);
                i = j;
            }
            _ => {
                v.push(&s[i..i + 1]);
                i += 1;
            }
        }
    }
    v
}

impl Grammar {
    pub fn load() -> Grammar {
        let src = include_str!("grammar.txt");
        let lines: Vec<&str> = src.lines().map(|l| l.trim()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect();
        let mut by_name = HashMap::new();
        let split = |l: &'static str| -> (&'static str, &'static str, &'static str, &'static str) {
            let (i, op) = [":=", "|=", "="].iter().filter_map(|o| l.find(&format!(" {} ", o)).map(|i| (i, *o))).min().unwrap();
            let head = l[..i].trim();
            let rhs = &l[i + 2 + op.len()..];
            let (name, open) = match head.find('@') {
                Some(j) => (head[..j].trim(), head[j + 1..].trim()),
                None => (head, head),
            };
            (name, open, op, rhs)
        };
        for (i, l) in lines.iter().enumerate() {
            let (name, _, _, _) = split(leak(l));
            assert!(by_name.insert(name, i).is_none(), "duplicate rule {}", name);
        }
        let mut ids = 0usize;
        let mut rules = Vec::new();
        for l in &lines {
            let (name, open, op, rhs) = split(leak(l));
            let id = ids;
            ids += 1;
            let body = {
                let mut d = DslParser { toks: dsl_tokens(rhs), p: 0, names: &by_name, ids: &mut ids };
                match op {
                    "=" => Body::Alias(d.items(&[])),
                    ":=" => {
                        let mut alts = vec![d.items(&["|"])];
                        while d.peek() == Some("|") {
                            d.p += 1;
                            alts.push(d.items(&["|"]));
                        }
                        Body::Struct(id, alts)
                    }
                    _ => {
                        let mut vs = Vec::new();
                        loop {
                            let mut loose = false;
                            if d.peek() == Some("~") {
                                loose = true;
                                d.p += 1;
                            }
                            let vn = d.toks[d.p];
                            assert_eq!(d.toks[d.p + 1], ":");
                            d.p += 2;
                            let it = d.item();
                            vs.push((leak(&format!("{}::{}", open, vn)), loose, it));
                            if d.peek() == Some("|") {
                                d.p += 1;
                            } else {
                                break;
                            }
                        }
                        Body::Enum(id, vs)
                    }
                }
            };
            rules.push(Rule { name, open, body });
        }
        let mut g = Grammar { rules, by_name, min_depth: vec![], n_choices: ids };
        g.min_depth = vec![1_000_000; g.rules.len()];
        loop {
            let mut changed = false;
            for i in 0..g.rules.len() {
                let d = match &g.rules[i].body {
                    Body::Alias(v) => g.seq_depth(v),
                    Body::Struct(_, alts) => alts.iter().map(|a| g.seq_depth(a)).min().unwrap(),
                    Body::Enum(_, vs) => vs.iter().filter(|v| !v.1).map(|v| g.depth(&v.2)).min().unwrap(),
                } + 1;
                if d < g.min_depth[i] {
                    g.min_depth[i] = d;
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        g
    }
    fn seq_depth(&self, v: &[G]) -> usize {
        v.iter().map(|x| self.depth(x)).max().unwrap_or(0)
    }
    fn depth(&self, g: &G) -> usize {
        match g {
            G::Rule(r) => self.min_depth[*r].min(1_000_000),
            G::Wrap(_, _, _, b) | G::Null(_, b) => self.seq_depth(b),
            G::List { smin, body, .. } => {
                if *smin == 0 {
                    0
                } else {
                    self.seq_depth(body)
                }
            }
            _ => 0,
        }
    }
    /// lists, repetitions and optional parts by their id
    pub fn parts(&self) -> HashMap<usize, &G> {
        fn walk<'a>(x: &'a G, m: &mut HashMap<usize, &'a G>) {
            match x {
                G::List { id, body, .. } | G::Opt { id, body, .. } | G::Rep(id, body) | G::Null(id, body) => {
                    m.insert(*id, x);
                    body.iter().for_each(|y| walk(y, m));
                }
                G::Wrap(_, _, _, body) => body.iter().for_each(|y| walk(y, m)),
                _ => {}
            }
        }
        let mut m = HashMap::new();
        for r in &self.rules {
            match &r.body {
                Body::Alias(v) => v.iter().for_each(|y| walk(y, &mut m)),
                Body::Struct(_, alts) => alts.iter().flatten().for_each(|y| walk(y, &mut m)),
                Body::Enum(_, vs) => vs.iter().for_each(|y| walk(&y.2, &mut m)),
            }
        }
        m
    }
    pub fn rule(&self, name: &str) -> usize {
        *self.by_name.get(name).unwrap_or_else(|| panic!("no rule {}", name))
    }
}

fn class_ok(c: Class, t: &Tok, strict: bool) -> bool {
    match c {
        Class::Dec => t.cls == Cls::Dec,
        Class::Hex => t.cls == Cls::Hex,
        Class::Oct => t.cls == Cls::Oct,
        Class::Float => t.cls == Cls::Float,
        Class::Str => t.cls == Cls::Str,
        _ => {
            t.cls == Cls::Word
                && (!strict
                    || !is_kw(t.text)
                    || match c {
                        // an argument's name can be any word: its place is always clear
                        Class::ArgName => true,
                        Class::AttrName => ATTR_KW.contains(&t.text),
                        Class::OpName => OP_KW.contains(&t.text),
                        _ => false,
                    })
        }
    }
}
fn class_ev<'t>(c: Class, t: &Tok<'t>) -> Ev<'t> {
    match c {
        Class::Dec => Ev::Tok(K::Dec, t.text),
        Class::Hex => Ev::Tok(K::Hex, t.text),
        Class::Oct => Ev::Tok(K::Oct, t.text),
        Class::Float => Ev::Tok(K::Float, t.text),
        Class::Str => Ev::Tok(K::Str, &t.text[1..t.text.len() - 1]),
        _ => Ev::Tok(K::Ident, unescape(t.text)),
    }
}
fn term_ok(s: &str, t: &Tok) -> bool {
    t.text == s && matches!(t.cls, Cls::Word | Cls::NegInf | Cls::Punct)
}
fn term_ev(s: &'static str) -> Ev<'static> {
    if s.as_bytes()[0].is_ascii_alphabetic() || s == "-Infinity" {
        Ev::Tok(K::Kw, s)
    } else {
        Ev::Tok(K::Punct, s)
    }
}

/// Strict parser: ordered choice over the strict language, deriving the prescribed trace.
pub struct Strict<'g, 't, 'k> {
    pub g: &'g Grammar,
    pub toks: &'k [Tok<'t>],
    pub evs: Vec<Ev<'t>>,
    /// also the spellings the strict language leaves out although they can be read in one way only
    /// (unions of one member, empty lists, a second attribute list on an argument's type)
    pub lenient: bool,
    /// where rules, list items and optional parts lie (when asked for)
    pub spans: Option<Vec<Span>>,
    /// rule attempts left: nested attribute argument lists make this (and weedle) try exponentially often; such texts count as
    /// not strict, which only means that nothing is demanded of them
    pub fuel: usize,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    Rule(usize),
    /// an item of the list or repetition with this id
    Item(usize),
    Opt(usize),
    Null(usize),
    /// a list or repetition as a whole
    Whole(usize),
}
pub type Span = (Part, usize, usize);
impl<'g, 't, 'k> Strict<'g, 't, 'k> {
    pub fn new(g: &'g Grammar, toks: &'k [Tok<'t>]) -> Self {
        Strict { g, toks, evs: Vec::new(), lenient: false, spans: None, fuel: 2_000_000 + 2000 * toks.len() }
    }
    fn put(&mut self, p: Part, a: usize, b: usize) {
        if let Some(v) = &mut self.spans {
            v.push((p, a, b));
        }
    }
    fn smark(&self) -> usize {
        self.spans.as_ref().map_or(0, |v| v.len())
    }
    fn scut(&mut self, n: usize) {
        if let Some(v) = &mut self.spans {
            v.truncate(n);
        }
    }
    pub fn rule(&mut self, r: usize, p: usize) -> Option<usize> {
        let q = self.rule_(r, p)?;
        self.put(Part::Rule(r), p, q);
        Some(q)
    }
    fn rule_(&mut self, r: usize, p: usize) -> Option<usize> {
        if self.fuel == 0 {
            return None;
        }
        self.fuel -= 1;
        let g = self.g;
        let rule = &g.rules[r];
        let mark = self.evs.len();
        let sm = self.smark();
        match &rule.body {
            Body::Alias(v) => self.seq(v, p),
            Body::Struct(_, alts) => {
                for a in alts {
                    self.evs.push(Ev::Open(rule.open));
                    if let Some(q) = self.seq(a, p) {
                        self.evs.push(Ev::Close);
                        return Some(q);
                    }
                    self.evs.truncate(mark);
                    self.scut(sm);
                }
                None
            }
            Body::Enum(_, vs) => {
                for (vn, loose, it) in vs {
                    if *loose {
                        continue;
                    }
                    self.evs.push(Ev::Open(vn));
                    if let Some(q) = self.item(it, p) {
                        self.evs.push(Ev::Close);
                        return Some(q);
                    }
                    self.evs.truncate(mark);
                    self.scut(sm);
                }
                None
            }
        }
    }
    fn seq(&mut self, v: &'g [G], mut p: usize) -> Option<usize> {
        for x in v {
            p = self.item(x, p)?;
        }
        Some(p)
    }
    fn term(&mut self, s: &'static str, p: usize) -> Option<usize> {
        let t = self.toks.get(p)?;
        if term_ok(s, t) {
            self.evs.push(term_ev(s));
            Some(p + 1)
        } else {
            None
        }
    }
    fn item(&mut self, x: &'g G, p: usize) -> Option<usize> {
        match x {
            G::Term(s) => self.term(s, p),
            G::Class(c) => {
                let t = self.toks.get(p)?;
                if class_ok(*c, t, true) {
                    self.evs.push(class_ev(*c, t));
                    Some(p + 1)
                } else {
                    None
                }
            }
            G::Rule(r) => self.rule(*r, p),
            G::Wrap(n, a, b, body) => {
                self.evs.push(Ev::Open(n));
                let p = self.term(a, p)?;
                let p = self.seq(body, p)?;
                let p = self.term(b, p)?;
                self.evs.push(Ev::Close);
                Some(p)
            }
            G::List { id, sep, smin, lmin, trailing, body } => {
                let start = p;
                let smin = &if self.lenient { if *sep == "or" { 1 } else { *lmin } } else { *smin };
                self.evs.push(Ev::Open("List"));
                let mut n = 0;
                let mut p = p;
                loop {
                    let mark = self.evs.len();
                    let sm = self.smark();
                    let q = if n == 0 {
                        Some(p)
                    } else {
                        match self.toks.get(p) {
                            Some(t) if term_ok(sep, t) => {
                                self.evs.push(Ev::Sep(sep));
                                Some(p + 1)
                            }
                            _ => None,
                        }
                    };
                    match q.and_then(|q| self.seq(body, q)) {
                        Some(r) => {
                            self.put(Part::Item(*id), q.unwrap_or(p), r);
                            p = r;
                            n += 1;
                        }
                        None => {
                            self.evs.truncate(mark);
                            self.scut(sm);
                            break;
                        }
                    }
                }
                if n < *smin {
                    return None;
                }
                if *trailing && self.toks.get(p).map_or(false, |t| term_ok(sep, t)) {
                    p += 1;
                }
                self.put(Part::Whole(*id), start, p);
                self.evs.push(Ev::Close);
                Some(p)
            }
            G::Rep(id, body) => {
                let start = p;
                self.evs.push(Ev::Open("Vec"));
                let mut p = p;
                loop {
                    let mark = self.evs.len();
                    let sm = self.smark();
                    match self.seq(body, p) {
                        Some(q) if q > p => {
                            self.put(Part::Item(*id), p, q);
                            p = q
                        }
                        _ => {
                            self.evs.truncate(mark);
                            self.scut(sm);
                            break;
                        }
                    }
                }
                self.put(Part::Whole(*id), start, p);
                self.evs.push(Ev::Close);
                Some(p)
            }
            G::Null(id, body) => {
                self.evs.push(Ev::Open("MayBeNull"));
                let p = self.seq(body, p)?;
                let q = match self.term("?", p) {
                    Some(q) => q,
                    None => {
                        self.evs.push(Ev::Absent);
                        p
                    }
                };
                self.put(Part::Null(*id), p, q);
                self.evs.push(Ev::Close);
                Some(q)
            }
            G::Opt { id, loose_only, body } => {
                let mark = self.evs.len();
                let sm = self.smark();
                if !*loose_only || self.lenient {
                    if let Some(q) = self.seq(body, p) {
                        self.put(Part::Opt(*id), p, q);
                        return Some(q);
                    }
                    self.scut(sm);
                    self.put(Part::Opt(*id), p, p);
                }
                self.evs.truncate(mark);
                self.evs.push(Ev::Absent);
                Some(p)
            }
            G::Absent => {
                self.evs.push(Ev::Absent);
                Some(p)
            }
        }
    }
}

/// the parts of an instance of `r`
pub fn spans(g: &Grammar, r: usize, toks: &[Tok]) -> Option<Vec<Span>> {
    let mut s = Strict::new(g, toks);
    s.spans = Some(Vec::new());
    match s.rule(r, 0) {
        Some(p) if p == toks.len() && s.fuel > 0 => s.spans,
        _ => None,
    }
}

/// The trace the grammar prescribes for `toks` as a whole instance of rule `r`, if they are in the strict language.
pub fn strict_parse<'t>(g: &Grammar, r: usize, toks: &[Tok<'t>]) -> Option<Vec<Ev<'t>>> {
    let mut s = Strict::new(g, toks);
    match s.rule(r, 0) {
        Some(p) if p == toks.len() && s.fuel > 0 => Some(s.evs),
        _ => None,
    }
}

/// Ditto for texts that need not be accepted, but have one reading only when they are.
pub fn lenient_parse<'t>(g: &Grammar, r: usize, toks: &[Tok<'t>]) -> Option<Vec<Ev<'t>>> {
    let mut s = Strict::new(g, toks);
    s.lenient = true;
    match s.rule(r, 0) {
        Some(p) if p == toks.len() && s.fuel > 0 => Some(s.evs),
        _ => None,
    }
}

/// Loose recogniser: set of all ends of derivations, memoised.
pub struct Loose<'g, 't, 'k> {
    g: &'g Grammar,
    toks: &'k [Tok<'t>],
    memo: HashMap<(usize, usize), Vec<usize>>,
}
fn norm(v: &mut Vec<usize>) {
    v.sort_unstable();
    v.dedup();
}
impl<'g, 't, 'k> Loose<'g, 't, 'k> {
    pub fn new(g: &'g Grammar, toks: &'k [Tok<'t>]) -> Self {
        Loose { g, toks, memo: HashMap::new() }
    }
    pub fn rule(&mut self, r: usize, p: usize) -> Vec<usize> {
        if let Some(v) = self.memo.get(&(r, p)) {
            return v.clone();
        }
        let g = self.g;
        let mut out = Vec::new();
        match &g.rules[r].body {
            Body::Alias(v) => out = self.seq(v, p),
            Body::Struct(_, alts) => {
                for a in alts {
                    out.extend(self.seq(a, p));
                }
            }
            Body::Enum(_, vs) => {
                for (_, _, it) in vs {
                    out.extend(self.item(it, p));
                }
            }
        }
        norm(&mut out);
        self.memo.insert((r, p), out.clone());
        out
    }
    fn seq(&mut self, v: &'g [G], p: usize) -> Vec<usize> {
        let mut cur = vec![p];
        for x in v {
            let mut nxt = Vec::new();
            for q in cur {
                nxt.extend(self.item(x, q));
            }
            norm(&mut nxt);
            if nxt.is_empty() {
                return nxt;
            }
            cur = nxt;
        }
        cur
    }
    fn term(&self, s: &str, p: usize) -> Vec<usize> {
        match self.toks.get(p) {
            Some(t) if term_ok(s, t) => vec![p + 1],
            _ => vec![],
        }
    }
    fn item(&mut self, x: &'g G, p: usize) -> Vec<usize> {
        match x {
            G::Term(s) => self.term(s, p),
            G::Class(c) => match self.toks.get(p) {
                Some(t) if class_ok(*c, t, false) => vec![p + 1],
                _ => vec![],
            },
            G::Rule(r) => self.rule(*r, p),
            G::Wrap(_, a, b, body) => {
                let mut out = Vec::new();
                for q in self.term(a, p) {
                    for r in self.seq(body, q) {
                        out.extend(self.term(b, r));
                    }
                }
                norm(&mut out);
                out
            }
            G::List { sep, lmin, trailing, body, .. } => {
                let mut out = Vec::new();
                if *lmin == 0 {
                    out.push(p);
                }
                let mut seen = std::collections::HashSet::new();
                let mut work = self.seq(body, p);
                while let Some(q) = work.pop() {
                    if !seen.insert(q) {
                        continue;
                    }
                    out.push(q);
                    for r in self.term(sep, q) {
                        if *trailing {
                            out.push(r);
                        }
                        work.extend(self.seq(body, r));
                    }
                }
                norm(&mut out);
                out
            }
            G::Rep(_, body) => {
                let mut seen = std::collections::HashSet::new();
                let mut work = vec![p];
                while let Some(q) = work.pop() {
                    if !seen.insert(q) {
                        continue;
                    }
                    for r in self.seq(body, q) {
                        if r > q {
                            work.push(r);
                        }
                    }
                }
                let mut out: Vec<usize> = seen.into_iter().collect();
                norm(&mut out);
                out
            }
            G::Null(_, body) => {
                let mut out = self.seq(body, p);
                let ext: Vec<usize> = out.iter().flat_map(|&q| self.term("?", q)).collect();
                out.extend(ext);
                norm(&mut out);
                out
            }
            G::Opt { body, .. } => {
                let mut out = self.seq(body, p);
                out.push(p);
                norm(&mut out);
                out
            }
            G::Absent => vec![p],
        }
    }
}
pub fn loose_ok(g: &Grammar, r: usize, toks: &[Tok]) -> bool {
    Loose::new(g, toks).rule(r, 0).contains(&toks.len())
}

/// Generator over the strict language.
pub struct Gen<'g> {
    pub g: &'g Grammar,
    pub rng: Rng,
    pub max_depth: usize,
    /// percentage for ordinary optional parts, extended attribute lists
    pub opt_p: usize,
    pub attr_p: usize,
    pub list_max: usize,
    /// weight of recursive alternatives
    pub rec_w: usize,
    pub hostile: bool,
    pub lenient: bool,
    cov: HashMap<(usize, usize, usize), u32>,
    pub bigrams: std::collections::HashSet<(usize, usize)>,
    pub trigrams: std::collections::HashSet<(usize, usize, usize)>,
    out: Vec<String>,
    attrs_rule: usize,
}
impl<'g> Gen<'g> {
    pub fn new(g: &'g Grammar, rng: Rng) -> Self {
        Gen {
            g,
            rng,
            max_depth: 22,
            opt_p: 45,
            attr_p: 20,
            list_max: 3,
            rec_w: 2,
            hostile: true,
            lenient: false,
            cov: HashMap::new(),
            bigrams: Default::default(),
            trigrams: Default::default(),
            out: Vec::new(),
            attrs_rule: g.rule("Attrs"),
        }
    }
    pub fn generate(&mut self, r: usize, pool: &Pool) -> Vec<String> {
        self.out.clear();
        let c = [usize::MAX, usize::MAX];
        self.rule(r, 0, c, pool);
        std::mem::take(&mut self.out)
    }
    /// an instance of what stands inside a list or an optional part
    pub fn generate_body(&mut self, body: &'g [G], depth: usize, pool: &Pool) -> Vec<String> {
        self.out.clear();
        self.seq(body, depth, [usize::MAX, usize::MAX], pool);
        std::mem::take(&mut self.out)
    }
    /// choose among weighted outcomes, half of the time the one least used in this context
    fn choose(&mut self, id: usize, w: &[usize], ctx: [usize; 2]) -> (usize, [usize; 2]) {
        let total: usize = w.iter().sum();
        let mut pick = 0;
        if self.rng.chance(1, 3) {
            let mut best = u32::MAX;
            let start = self.rng.below(w.len());
            for k in 0..w.len() {
                let i = (start + k) % w.len();
                if w[i] == 0 {
                    continue;
                }
                let n = *self.cov.get(&(ctx[1], id, i)).unwrap_or(&0);
                if n < best {
                    best = n;
                    pick = i;
                }
            }
        } else {
            let mut k = self.rng.below(total);
            for (i, x) in w.iter().enumerate() {
                if k < *x {
                    pick = i;
                    break;
                }
                k -= x;
            }
        }
        *self.cov.entry((ctx[1], id, pick)).or_insert(0) += 1;
        let me = id * 64 + pick;
        self.bigrams.insert((ctx[1], me));
        self.trigrams.insert((ctx[0], ctx[1], me));
        (pick, [ctx[1], me])
    }
    fn rule(&mut self, r: usize, d: usize, ctx: [usize; 2], pool: &Pool) {
        let g = self.g;
        match &g.rules[r].body {
            Body::Alias(v) => self.seq(v, d + 1, ctx, pool),
            Body::Struct(id, alts) => {
                let w = vec![1; alts.len()];
                let (i, c) = if alts.len() > 1 { self.choose(*id, &w, ctx) } else { (0, ctx) };
                self.seq(&alts[i], d + 1, c, pool)
            }
            Body::Enum(id, vs) => {
                let deep = d >= self.max_depth;
                let min = vs.iter().filter(|v| !v.1).map(|v| g.depth(&v.2)).min().unwrap();
                let w: Vec<usize> = vs
                    .iter()
                    .map(|v| {
                        if v.1 {
                            0
                        } else if deep {
                            (g.depth(&v.2) <= min) as usize
                        } else if g.depth(&v.2) > min + 1 {
                            self.rec_w
                        } else {
                            1
                        }
                    })
                    .collect();
                let (i, c) = self.choose(*id, &w, ctx);
                self.item(&vs[i].2, d + 1, c, pool)
            }
        }
    }
    fn seq(&mut self, v: &'g [G], d: usize, ctx: [usize; 2], pool: &Pool) {
        for x in v {
            self.item(x, d, ctx, pool);
        }
    }
    fn item(&mut self, x: &'g G, d: usize, ctx: [usize; 2], pool: &Pool) {
        let deep = d >= self.max_depth;
        match x {
            G::Term(s) => self.out.push(s.to_string()),
            G::Class(c) => {
                let t = pool.gen_class(*c, &mut self.rng, self.hostile);
                self.out.push(t);
            }
            G::Rule(r) => self.rule(*r, d, ctx, pool),
            G::Wrap(_, a, b, body) => {
                self.out.push(a.to_string());
                self.seq(body, d + 1, ctx, pool);
                self.out.push(b.to_string());
            }
            G::List { id, sep, smin, lmin, trailing, body } => {
                let smin = &if self.lenient { if *sep == "or" { 1 } else { *lmin } } else { *smin };
                let m = self.list_max.max(*smin);
                let w: Vec<usize> = (0..=m + 1)
                    .map(|n| {
                        if n < *smin || (deep && n > *smin) {
                            0
                        } else if n == m + 1 {
                            1
                        } else {
                            4
                        }
                    })
                    .collect();
                let (n, c) = self.choose(*id, &w, ctx);
                for i in 0..n {
                    if i > 0 {
                        self.out.push(sep.to_string());
                    }
                    self.seq(body, d + 1, c, pool);
                }
                if *trailing && n > 0 && self.rng.chance(1, 3) {
                    self.out.push(sep.to_string());
                }
            }
            G::Rep(id, body) => {
                let m = self.list_max;
                let w: Vec<usize> = (0..=m + 1).map(|n| if deep && n > 0 { 0 } else if n == 0 || n == m + 1 { 1 } else { 4 }).collect();
                let (n, c) = self.choose(*id, &w, ctx);
                for _ in 0..n {
                    self.seq(body, d + 1, c, pool);
                }
            }
            G::Null(id, body) => {
                let (n, c) = self.choose(*id, &[3, 2], ctx);
                self.seq(body, d + 1, c, pool);
                if n == 1 {
                    self.out.push("?".into());
                }
            }
            G::Opt { id, loose_only, body } => {
                if *loose_only && !self.lenient {
                    return;
                }
                let is_attr = matches!(body[0], G::Rule(r) if r == self.attrs_rule);
                let p = if is_attr { self.attr_p } else { self.opt_p };
                let p = if deep { 0 } else { p.max(1) };
                let (n, c) = self.choose(*id, &[100 - p, p], ctx);
                if n == 1 {
                    self.seq(body, d + 1, c, pool);
                }
            }
            G::Absent => {}
        }
    }
}
