//! The workloads of the properties that are not judged document by document.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dump::{Dump, SepText, KW_TEXTS};
use crate::entries::{clip, guarded, run, run_doc, Entry, Out};
use crate::ev::{diff, show, Ev, K};
use crate::grammar::{is_kw, loose_ok, Gen, Grammar, Loose, Strict};
use crate::lex::{lex, skip_trivia, unescape, word_end, Cls, Tok};
use crate::mon;
use crate::render::{render_checked, Style};
use crate::rng::{fnv, Rng};
use crate::work::*;

// ------------------------------------------------------------------------------------------------ C10

/// acceptance and contents of an outcome, without positions
fn shape(o: &Out) -> Option<Vec<u64>> {
    match o {
        Out::Ok(rest, e) => Some(vec![fnv(format!("{:?}", e).as_bytes()), rest.is_empty() as u64]),
        Out::Err(..) => None,
        Out::Panic(_) => Some(vec![0]),
    }
}
pub fn trivia_pair(c: &mut Ctx, w: &str, a: &str, b: &str) {
    c.crumb("trivia", &[a, b]);
    let bad = judge_trivia(a, b);
    let tag = if run_doc(a).is_ok() { "same-accepted" } else { "same-refused" };
    c.observed(w, tag, b, 1, true);
    if let Some(d) = bad {
        c.rec.violation(w, "trivia", &[a, b], &d);
    }
}
pub fn judge_trivia(a: &str, b: &str) -> Option<String> {
    let (x, y) = (run_doc(a), run_doc(b));
    if shape(&x) != shape(&y) {
        let why = match (&x, &y) {
            (Out::Ok(_, e), Out::Ok(_, f)) => diff(e, f),
            _ => format!("{} | {}", x.brief(), y.brief()),
        };
        return Some(format!("same tokens, other whitespace and comments, other outcome: {}", why));
    }
    None
}
pub const TRIVIA: &[&str] = &[
    " ", "\t", "\n", "\r", "\r\n", "\n\r", "  \n\t ", "//\n", "//\r\n", "// x\n", "//x\r\n", "//\"\n", "//*/\n", "///\n", "////\n", "//é\n", "//🦀 日本\n", "// /* \n", "// */ x\n", "//\\\n", "//\t\n", "//;}\n",
    "/**/", "/***/", "/****/", "/*/*/", "/* */", "/*\n*/", "/*\r*/", "/*\"*/", "/*'*/", "/*//*/", "/*/ */", "/** x */", "/*é*/", "/*🦀*/", "/* * / */", "/*a*b/c*/", "/*;*/", "/**//**/", "/* x */ // y\n", "// y\n/* x */", "/*\n// x\n*/",
    "/*\u{0}*/", "//\u{0}\n", "//\r x\n", "/*\\*/", "// a\n// b\n", "/*a*//*b*/ /*c*/", "\n\n\n", "/*/**/", "//#\n", "/*interface I {};*/", "//interface I {};\n", "//\u{2028}x\n", "/*\u{a0}*/", "//\u{feff}\n", "//\u{b}\n", "/*\u{85}*/",
];

pub fn c10(c: &mut Ctx) {
    // every kind of trivia in every gap of the hand-written documents
    let mut bases: Vec<String> = DEFS.iter().map(|s| s.to_string()).collect();
    bases.extend(IF_MEMBERS.iter().map(|m| format!("interface I {{ {} }} ;", m)));
    bases.extend(MIXIN_MEMBERS.iter().map(|m| format!("interface mixin I {{ {} }} ;", m)));
    bases.extend(NS_MEMBERS.iter().map(|m| format!("namespace I {{ {} }} ;", m)));
    bases.extend(DICT_MEMBERS.iter().map(|m| format!("dictionary I {{ {} }} ;", m)));
    for (p, _) in VALUE_POS {
        bases.push(p.replace('@', "-1.5e3"));
        bases.push(p.replace('@', "0"));
    }
    for t in ["[ A = ( b , c ) , D = * , E = f ( any x ) , G ( ) ] enum E { \"a\" } ;", "typedef ( [ A ] sequence < long > or record < DOMString , ( A or B ) ? > ) T ;"] {
        bases.push(t.to_string());
    }
    let salt = c.seed as usize;
    for b in &bases {
        let t = words(b);
        let plain = t.join(" ");
        for gap in 0..=t.len() {
            if c.stop() {
                return;
            }
            for (k, tr) in TRIVIA.iter().enumerate() {
                if !c.mine() {
                    continue;
                }
                if !c.thorough && (k + gap + salt) % 2 == 0 && k > 12 {
                    continue;
                }
                let mut s = String::new();
                for (i, w) in t.iter().enumerate() {
                    if i == gap {
                        s.push_str(tr);
                    } else if i > 0 {
                        s.push(' ');
                    }
                    s.push_str(w);
                }
                if gap == t.len() {
                    s.push_str(tr);
                }
                // only where the tokens stay what they were
                let l = lex(&s);
                if l.len() == t.len() && l.iter().zip(&t).all(|(x, y)| x.text == y) {
                    trivia_pair(c, "every-gap", &plain, &s);
                }
            }
            // no trivia at all in this gap
            if gap > 0 && gap < t.len() {
                let s = format!("{}{}", t[..gap].join(" "), t[gap..].join(" "));
                let l = lex(&s);
                if l.len() == t.len() && l.iter().zip(&t).all(|(x, y)| x.text == y) && c.mine() {
                    trivia_pair(c, "no-gap", &plain, &s);
                }
            }
        }
    }
    // sizes of trivia
    for n in c.pool.sizes(if c.thorough { 140_000 } else { 70_000 }) {
        if !c.mine() || c.stop() {
            continue;
        }
        for (i, unit) in [" ", "\n", "\t", "\r\n", "//x\n", "/**/"].iter().enumerate() {
            let gap = unit.repeat(n / if i > 3 { 4 } else { 1 });
            let s = format!("interface I {{ attribute{} long x; }};{}", gap, gap);
            trivia_pair(c, "long-trivia", "interface I { attribute long x; };", &s);
        }
        let body = "x".repeat(n);
        for t in [format!("/*{}*/", body), format!("//{}\n", body), format!("/*{}*/", "*".repeat(n)), format!("/*{}*/", "\n".repeat(n)), format!("/*{}*/", "é".repeat(n))] {
            let s = format!("{}interface{}I{}{{ attribute long x; }};{}", t, t, t, t);
            trivia_pair(c, "long-trivia", "interface I { attribute long x; };", &s);
        }
    }
    // random documents, valid and not, in several renderings
    let g = Grammar::load();
    let defs = g.rule("Definitions");
    let mut gen = Gen::new(&g, c.rng("c10"));
    let mut rng = c.rng("c10-style");
    let n = if c.thorough { 120_000 } else { 7_000 };
    let mut prev: Vec<String> = Vec::new();
    for i in 0..n {
        if c.stop() {
            break;
        }
        if i % 20 == 0 {
            let p = preset(&mut rng, "C10");
            apply(&mut gen, p);
        }
        let mut t = if rng.chance(1, 3) { words(rng.pick(&bases)) } else { gen_tokens(c, &mut gen, defs, rng.chance(1, 6)) };
        if t.len() > 500 || attr_arg_nesting(&t) > 3 {
            continue;
        }
        let mutated = rng.chance(1, 3);
        let keep = t.clone();
        if mutated {
            mutate(&mut t, &prev, c, &mut rng);
        }
        prev = keep;
        if attr_arg_nesting(&t) > 4 {
            continue;
        }
        let w = if mutated { "respaced-mutated" } else { "respaced" };
        let Some(a) = render_checked(&t, Style::Spaced, &mut rng, &c.pool) else { continue };
        for st in [Style::Minimal, Style::Random, Style::Dense] {
            if let Some(b) = render_checked(&t, st, &mut rng, &c.pool) {
                if a != b {
                    trivia_pair(c, w, &a, &b);
                }
            }
        }
    }
    // comment lookalikes: exhaustive short trivia and characters, judged by the reference
    let thorough = c.thorough;
    let mut sink = |c: &mut Ctx, w: &str, t: &str| c.doc(w, t);
    w_trivia(c, if thorough { 5 } else { 4 }, &mut sink);
    w_strings(c, if thorough { 5 } else { 4 }, &mut sink);
    w_char(c, if thorough { 300_000 } else { 12_000 }, &mut sink);
    w_corpus(c, 1, &mut sink);
    w_allchars(c, &mut sink);
    w_large(c, &mut sink);
    let n = if thorough { 1500 } else { 60 };
    w_entry(c, n, |c, e, core, fo| c.entry("standalone", e, core, fo));
}

// ------------------------------------------------------------------------------------------------ C11

struct TermCase {
    name: &'static str,
    text: &'static str,
    word: bool,
    f: for<'a> fn(&'a str) -> Out<'a>,
}
fn run_term<'a, T: weedle::Parse<'a> + Dump<'a>>(s: &'a str) -> Out<'a> {
    run::<T>(s)
}
fn terms() -> Vec<TermCase> {
    let mut v: Vec<TermCase> = Vec::new();
    macro_rules! kw {
        ($t:ident, $s:expr) => {
            v.push(TermCase { name: stringify!($t), text: <weedle::term::$t as SepText>::S, word: true, f: { fn f<'a>(s: &'a str) -> Out<'a> { run_term::<weedle::term::$t>(s) } f } });
        };
    }
    macro_rules! pu {
        ($t:ident, $s:expr) => {
            v.push(TermCase { name: stringify!($t), text: <weedle::term::$t as SepText>::S, word: false, f: { fn f<'a>(s: &'a str) -> Out<'a> { run_term::<weedle::term::$t>(s) } f } });
        };
    }
    for_each_kw!(kw);
    for_each_punct!(pu);
    // the exported `term!` macro: the type named by a text must be the parser of that text
    macro_rules! tm {
        ($s:expr, $($t:tt)+) => {
            v.push(TermCase { name: concat!("term!(", $s, ")"), text: $s, word: $s.as_bytes()[0].is_ascii_alphabetic() || $s == "-Infinity", f: { fn f<'a>(s: &'a str) -> Out<'a> { run_term::<weedle::term!($($t)+)>(s) } f } });
        };
    }
    tm!("(", OpenParen);
    tm!(")", CloseParen);
    tm!("[", OpenBracket);
    tm!("]", CloseBracket);
    tm!("{", OpenBrace);
    tm!("}", CloseBrace);
    tm!(",", ,);
    tm!("-", -);
    tm!(".", .);
    tm!("...", ...);
    tm!(":", :);
    tm!(";", ;);
    tm!("<", <);
    tm!("=", =);
    tm!(">", >);
    tm!("?", ?);
    tm!("*", *);
    tm!("-Infinity", -Infinity);
    macro_rules! tms { ($($t:tt)*) => { $( tm!(stringify!($t), $t); )* } }
    tms!(or optional async attribute callback const deleter dictionary enum getter includes inherit interface iterable maplike namespace partial required setlike setter static stringifier typedef unrestricted symbol ByteString DOMString FrozenArray Infinity NaN USVString any boolean byte double false float long null object octet sequence short true unsigned undefined record ArrayBuffer DataView Int8Array Int16Array Int32Array Uint8Array Uint16Array Uint32Array Uint8ClampedArray Float32Array Float64Array ArrayBufferView BufferSource Promise Error readonly mixin implements legacycaller constructor);
    v
}
fn judge_term(t: &TermCase, text: &str) -> Option<String> {
    let out = (t.f)(text);
    let p = skip_trivia(text, 0);
    let b = text.as_bytes();
    let here = text[p..].starts_with(t.text) && (!t.word || !b.get(p + t.text.len()).map_or(false, |&x| crate::lex::is_word_cont(x)));
    match (&out, here) {
        (Out::Ok(rest, e), true) => {
            let want = skip_trivia(text, p + t.text.len());
            if !mon::is_suffix(text, rest) || text.len() - rest.len() != want {
                return Some(format!("{}: rest {:?}, expected {:?}", t.name, clip(rest), clip(&text[want..])));
            }
            match e[..] {
                [Ev::Tok(_, x)] if x == t.text => None,
                _ => Some(format!("{}: reports {}", t.name, show(e))),
            }
        }
        (Out::Ok(rest, _), false) => Some(format!("{}: recognised in {:?} (rest {:?})", t.name, clip(text), clip(rest))),
        (Out::Err(..), false) => None,
        (o, _) => Some(format!("{}: not recognised in {:?}: {}", t.name, clip(text), o.brief())),
    }
}
pub fn term_case(c: &mut Ctx, w: &str, name: &str, text: &str) {
    let ts = terms();
    if let Some(t) = ts.iter().find(|t| t.name == name) {
        term_one(c, w, t, text);
    }
}
fn term_one(c: &mut Ctx, w: &str, t: &TermCase, text: &str) {
    c.crumb("term", &[t.name, text]);
    let bad = judge_term(t, text);
    let key = format!("{} <- {}", t.name, text);
    c.observed(w, "term", &key, 1, true);
    if let Some(d) = bad {
        c.rec.violation(w, "term", &[t.name, text], &d);
    }
}
fn judge_ident(text: &str) -> Option<String> {
    let out = run::<weedle::common::Identifier>(text);
    let p = skip_trivia(text, 0);
    match (word_end(text.as_bytes(), p), &out) {
        (Some(e), Out::Ok(rest, ev)) => {
            let want = unescape(&text[p..e]);
            let wr = skip_trivia(text, e);
            if ev[..] != [Ev::Tok(K::Ident, want)] || text.len() - rest.len() != wr || !mon::is_suffix(text, rest) {
                return Some(format!("name in {:?}: expected {:?} and rest {:?}, got {}", clip(text), want, clip(&text[wr..]), out.brief()));
            }
            None
        }
        (None, Out::Err(..)) => None,
        (w, o) => Some(format!("name in {:?}: expected {:?}, got {}", clip(text), w.map(|e| &text[p..e]), o.brief())),
    }
}
pub fn ident_one(c: &mut Ctx, w: &str, text: &str) {
    c.crumb("ident", &[text]);
    let bad = judge_ident(text);
    c.observed(w, "name", text, 1, true);
    if let Some(d) = bad {
        c.rec.violation(w, "ident", &[text], &d);
    }
}

pub fn c11(c: &mut Ctx) {
    let ts = terms();
    let all: Vec<&'static str> = KW_TEXTS.iter().chain(crate::lex::PUNCTS).copied().collect();
    let after = ["", " ", "\n", "/**/", "//\n", "a", "Z", "0", "9", "_", "-", ".", "é", "(", ")", "=", "<", ">", "\"", "-x", "_x", "-1", " x", "/", "/*", "\u{0}", "\u{a0}", "@", "[", "`", "{", "/**/x", "\u{30}", "\u{660}", "ſ", "K"];
    let before = ["", " ", "\t\r\n", "/* x */", "//x\n", "_", "x", "-", "0", "/", "\u{feff}"];
    for t in &ts {
        for u in &all {
            for a in after {
                if *u != t.text && !t.text.starts_with(u) && !u.starts_with(t.text) && a.len() > 1 {
                    continue;
                }
                if c.mine() {
                    term_one(c, "terms", t, &format!("{}{}", u, a));
                }
            }
        }
        for b in before {
            for a in after {
                if c.mine() {
                    term_one(c, "terms", t, &format!("{}{}{}", b, t.text, a));
                }
            }
        }
        let mut variants: Vec<String> = vec![t.text.to_uppercase(), t.text.to_lowercase(), format!("_{}", t.text), format!("{0}{0}", t.text)];
        let ch: Vec<char> = t.text.chars().collect();
        for i in 0..ch.len() {
            let mut v = ch.clone();
            v[i] = if v[i].is_ascii_lowercase() { v[i].to_ascii_uppercase() } else { v[i].to_ascii_lowercase() };
            variants.push(v.iter().collect());
            let mut v = ch.clone();
            v.remove(i);
            variants.push(v.iter().collect());
            for ins in [' ', 'a', '_', '-', '\u{200d}'] {
                let mut v = ch.clone();
                v.insert(i, ins);
                variants.push(v.iter().collect());
            }
            let mut v = ch.clone();
            if i + 1 < v.len() {
                v.swap(i, i + 1);
            }
            variants.push(v.iter().collect());
        }
        for v in variants {
            for a in ["", " ", "x", ";", "("] {
                if c.mine() {
                    term_one(c, "terms-near", t, &format!("{}{}", v, a));
                }
            }
        }
        // every ASCII and a sample of other characters right after a word
        for ch in (0u32..0x100).chain([0x130, 0x131, 0x17f, 0x212a, 0x660, 0x966, 0xff10, 0x1f600]) {
            if let Some(ch) = char::from_u32(ch) {
                if c.mine() {
                    term_one(c, "terms-next", t, &format!("{}{}", t.text, ch));
                }
            }
        }
        if c.stop() {
            return;
        }
    }
    let max = if c.thorough { 6 } else { 5 };
    exhaustive(c, NAME_ALPHABET, max, |c, s| ident_one(c, "names-exhaustive", s));
    for k in KW_TEXTS {
        for pre in ["", "_", "__", "___", "-", "_-", "-_", "0", "a", "é"] {
            for suf in ["", "_", "-", "1", "s", " ", "/**/x", "é", ".", "=", "\u{660}"] {
                if c.mine() {
                    ident_one(c, "names-keywords", &format!("{}{}{}", pre, k, suf));
                }
            }
        }
    }
    for ch in (0u32..0x250).chain([0x660, 0x966, 0x200d, 0x2028, 0xff10, 0xff21, 0x1f600, 0x212a]) {
        if let Some(ch) = char::from_u32(ch) {
            for t in [format!("{}", ch), format!("{}a", ch), format!("a{}", ch), format!("a{}b", ch), format!("_{}", ch), format!("_{}a", ch), format!("_a{}", ch)] {
                if c.mine() {
                    ident_one(c, "names-characters", &t);
                }
            }
        }
    }
    let mut rng = c.rng("c11");
    for n in c.pool.sizes(if c.thorough { 300_000 } else { 70_000 }) {
        if c.mine() {
            let body: String = (0..n).map(|_| *rng.pick(&['a', 'Z', '0', '_', '-'])).collect();
            for t in [format!("a{}", body), format!("_b{} x", body), format!("{}", body), format!("_{}", body), format!("x{}/**/y", body)] {
                ident_one(c, "names-long", &t);
            }
        }
    }
    let thorough = c.thorough;
    let mut sink = |c: &mut Ctx, w: &str, t: &str| c.doc(w, t);
    w_keywords(c, &mut sink);
    w_names(c, if thorough { 5 } else { 4 }, &mut sink);
    w_edit(c, if thorough { 1 } else { 2 }, &mut sink);
    w_escaped(c, if thorough { 20_000 } else { 1_500 }, &mut sink);
    w_random(c, if thorough { 60_000 } else { 2_500 }, &mut sink);
    w_mut(c, if thorough { 60_000 } else { 2_500 }, &mut sink);
    w_char(c, if thorough { 300_000 } else { 8_000 }, &mut sink);
    let n = if thorough { 1500 } else { 50 };
    w_entry(c, n, |c, e, core, fo| c.entry("standalone", e, core, fo));
}
/// every name of a document replaced by an escaped keyword or a near miss of one
fn w_escaped(c: &mut Ctx, n: usize, sink: Sink) {
    let g = Grammar::load();
    let defs = g.rule("Definitions");
    let mut gen = Gen::new(&g, c.rng("escaped"));
    let mut rng = c.rng("escaped-style");
    let mut k = c.shard;
    for _ in 0..n {
        if c.stop() {
            return;
        }
        let mut t = if rng.chance(1, 2) {
            let all = [DEFS, IF_MEMBERS];
            let blk: &[&str] = *rng.pick(&all);
            let s: &str = *rng.pick(blk);
            if DEFS.contains(&s) {
                words(s)
            } else {
                words(&format!("interface I {{ {} }} ;", s))
            }
        } else {
            gen_tokens(c, &mut gen, defs, false)
        };
        if t.len() > 400 || attr_arg_nesting(&t) > 3 {
            continue;
        }
        for x in t.iter_mut() {
            if lex(x).len() == 1 && lex(x)[0].cls == Cls::Word && !is_kw(x) {
                k += 1;
                let kw = KW_TEXTS[k % KW_TEXTS.len()];
                *x = match rng.below(6) {
                    0 => format!("{}{}", kw.trim_start_matches('-'), rng.pick(&["s", "1", "_", "-"])),
                    _ => format!("_{}", kw.trim_start_matches('-')),
                };
            }
        }
        emit(c, "escaped-keywords", &t, &mut rng, sink);
    }
}

// ------------------------------------------------------------------------------------------------ C12

/// A complete instance followed by text that cannot continue it.
pub fn judge_follow(g: &Grammar, e: &Entry, core: &str, follow: &str) -> (Option<String>, &'static str) {
    // a follower that starts with \u{1} stands right after the instance, without a space between
    let text = match follow.strip_prefix('\u{1}') {
        Some(f) => format!("{}{}", core, f),
        None => format!("{} {}", core, follow),
    };
    let text: &str = &text;
    let own = lex(core);
    let ct = own.len();
    let all = lex(text);
    let junk = all.iter().position(|t| t.cls == Cls::Junk).unwrap_or(all.len());
    if all.len() > 250 || junk < ct || own.iter().zip(&all).any(|(x, y)| x.text != y.text) || all.len() < ct {
        return (None, "skip");
    }
    let toks = &all[..junk];
    let rule = g.rule(e.rule);
    // in no reading does the instance reach into what follows
    let ends = Loose::new(g, toks).rule(rule, 0);
    if ends.iter().max() != Some(&ct) || ct == 0 {
        return (None, "can-continue");
    }
    let mut s = Strict::new(g, toks);
    if s.rule(rule, 0) != Some(ct) || s.fuel == 0 {
        return (None, "not-strict");
    }
    let exp = s.evs;
    match (e.f)(text) {
        Out::Ok(rest, act) => {
            if exp != act {
                return (Some(format!("{}: followed by {:?}: {}", e.name, clip(follow), diff(&exp, &act))), "differs");
            }
            let want = all.get(ct).map_or(text.len(), |t| t.off);
            if !mon::is_suffix(text, rest) || text.len() - rest.len() != want {
                return (Some(format!("{}: rest {:?}, expected {:?}", e.name, clip(rest), clip(&text[want..]))), "rest");
            }
            (None, "followed")
        }
        o => (Some(format!("{}: followed by {:?}: not accepted: {}", e.name, clip(follow), o.brief())), "refused"),
    }
}
pub fn follow_one(c: &mut Ctx, w: &str, e: &Entry, core: &str, follow: &str) {
    c.crumb("follow", &[e.name, core, follow]);
    let (bad, tag) = judge_follow(&c.g, e, core, follow);
    let key = format!("{} <- {} {}", e.name, core, follow);
    c.observed(w, tag, &key, 1, tag == "followed");
    if let Some(d) = bad {
        c.rec.violation(w, "follow", &[e.name, core, follow], &d);
    }
}
pub fn any_one(c: &mut Ctx, w: &str, e: &Entry, text: &str) {
    c.crumb("any", &[e.name, text]);
    let out = (e.f)(text);
    let v = mon::eval_entry_any(&c.g, e, text, &out);
    let key = format!("{} <- {}", e.name, text);
    c.observed(w, v.tag, &key, v.events, true);
    if let Some(d) = v.violation {
        c.rec.violation(w, "any", &[e.name, text], &d);
    }
}
pub const FOLLOW_TOKS: &[&str] = &[";", "}", ")", "]", ">", ",", "?", "=", "...", "*", ":", "{", "(", "[", "<", "-", ".", "x", "Foo9", "\"s\"", "5", "0x1", "1.5", "_y", ", ;", "; ;", "} ;", ") ;", "> x ;", "? ?", "= 5", "{ }", "( )", "[ ]", "x y", ", x", ", x ,", "] x", "\"s\" , \"t\"", "; interface1 { } ;"];

fn es_named(c: &Ctx, rules: &[&str]) -> Vec<Entry> {
    c.entries.iter().filter(|e| rules.contains(&e.rule)).copied().collect()
}
pub fn c12(c: &mut Ctx) {
    let (n1, n2, n3) = if c.thorough { (1500, 1500, 3000) } else { (80, 60, 120) };
    w_entry(c, n1, |c, e, core, fo| c.entry("standalone", e, core, fo));
    let mut rng = c.rng("c12");
    w_entry(c, n2, |c, e, core, _| {
        let fo = FOLLOW_TOKS[rng.below(FOLLOW_TOKS.len())];
        let fo2 = if rng.chance(1, 3) { format!("{} {}", fo, rng.pick(FOLLOW_TOKS)) } else { fo.to_string() };
        if core.len() < 1500 {
            follow_one(c, "followed", e, core, &fo2);
        }
    });
    // every character and every word right behind a few instances of everything
    {
        let mut glue: Vec<String> = (0x20u8..0x7f).map(|b| format!("\u{1}{}", b as char)).collect();
        glue.extend(["é", "🦀", "\u{0}", "\u{a0}", "\u{feff}", "\u{b}", "\u{c}", "/*", "/* x", "//", "/**/", "// x\n;", "..", "...", "....", ".5", "-1", "--", "1x", "\"\"", "\"x", "??", "<<", ">>", "((", "[[", "_x", "-x", "::", "==", ",,", ";;", "+1", "e5", "x1", "0x", ".e", "\r\n;", "\t=", " ", "*/", "{}", "()", "[]", "=1", "=\"a\"", "<A>", "(A)", ", A", ": A"].iter().map(|s| format!("\u{1}{}", s)));
        glue.extend(vocabulary());
        let rounds = if c.thorough { 40 } else { 4 };
        let mut some: Vec<(Entry, String)> = Vec::new();
        w_entry(c, rounds * 3, |_, e, core, _| some.push((*e, core.to_string())));
        let mut seen = std::collections::HashMap::new();
        for (e, core) in some {
            let k: &mut usize = seen.entry(e.name).or_default();
            if core.len() > 120 || *k >= rounds {
                continue;
            }
            *k += 1;
            if c.stop() {
                return;
            }
            for f in &glue {
                follow_one(c, "right-behind", &e, &core, f);
            }
        }
        // literals and names are short enough to try many
        let short = ["IntegerLit", "FloatLit", "FloatValueLit", "DecLit", "HexLit", "OctLit", "StringLit", "DefaultValue", "ConstValue", "Identifier", "IdentifierOrString", "Type", "ReturnType", "NonAnyType"];
        for e in es_named(c, &short) {
            for v in VALUES.iter().copied().chain(BASE_TYPES.iter().copied()).chain(["x", "_x", "a-b", "_long", "1.5e+3", "-.5", "5.", "0", "-0", "0x0", "-0XaF", "017"]) {
                if !c.mine() {
                    continue;
                }
                for f in &glue {
                    follow_one(c, "right-behind", &e, v, f);
                }
            }
        }
    }
    // any text at any parser
    let mut rng = c.rng("c12-any");
    let voc = vocabulary();
    let es = c.entries.clone();
    w_entry(c, n3, |c, e, core, _| {
        let mut t = words(core);
        if t.len() > 120 {
            return;
        }
        match rng.below(4) {
            0 => t.push(rng.pick(&voc).clone()),
            1 => {
                let v: Vec<String> = (0..rng.range(1, 6)).map(|_| rng.pick(&voc).clone()).collect();
                t.extend(v);
            }
            _ => mutate(&mut t, &[], c, &mut rng),
        }
        let st = style(&mut rng);
        if let Some(s) = render_checked(&t, st, &mut rng, &c.pool) {
            let e2 = if rng.chance(1, 3) { es[rng.below(es.len())] } else { *e };
            any_one(c, "any-text", &e2, &s);
        }
    });
    // document order: the same element standing alone and inside a document
    w_sized_elements(c);
    let mut r2 = c.rng("c12-chars");
    let max = if c.thorough { 200_000 } else { 6_000 };
    let es = c.entries.clone();
    let mut sink = move |c: &mut Ctx, w: &str, t: &str| {
        let e = es[r2.below(es.len())];
        if lex(t).len() < 200 {
            any_one(c, w, &e, t);
        }
    };
    w_char(c, max, &mut sink);
}
fn w_sized_elements(c: &mut Ctx) {
    let max = if c.thorough { 70_000 } else { 10_000 };
    for n in c.pool.sizes(max) {
        if c.stop() {
            return;
        }
        if !c.mine() {
            continue;
        }
        let es = c.entries.clone();
        let find = |n: &str| *es.iter().find(|e| e.rule == n).unwrap();
        let list = |sep: &str, f: &dyn Fn(usize) -> String| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        let cases: Vec<(&str, String)> = vec![
            ("W_VecIdent", list(" ", &|i| format!("a{}", i))),
            ("W_ListIdent", list(",", &|i| format!("a{}", i))),
            ("IdentifierList", format!("z,{}", list(", ", &|i| format!("a{}", i))).trim_end_matches(',').to_string()),
            ("EnumValueList", format!("\"z\",{}", list(",", &|i| format!("\"{}\"", i)))),
            ("ArgumentList", list(",", &|i| format!("long a{}", i))),
            ("Attrs", format!("[Z,{}]", list(",", &|i| format!("A{}=b", i))).replace(",]", "]")),
            ("DictionaryMembers", list(" ", &|i| format!("long a{}=1;", i))),
            ("InterfaceMembers", list(" ", &|i| format!("attribute long a{};", i))),
            ("MixinMembers", list(" ", &|i| format!("undefined a{}();", i))),
            ("NamespaceMembers", list(" ", &|i| format!("const long A{}=1;", i))),
            ("Definitions", list(" ", &|i| format!("A{} includes B;", i))),
            ("UnionType", format!("(x or y{})", (0..n).map(|i| format!(" or T{}", i)).collect::<String>())),
            ("Identifier", format!("a{}", "b".repeat(n))),
            ("StringLit", format!("\"{}\"", "é".repeat(n))),
            ("IntegerLit", format!("1{}", "0".repeat(n))),
            ("FloatLit", format!("1{}.5", "0".repeat(n))),
        ];
        for (r, t) in cases {
            if n > 3000 && matches!(r, "Attrs") {
                continue;
            }
            let e = find(r);
            c.entry("sized-elements", &e, &t, "@");
        }
    }
}

// ------------------------------------------------------------------------------------------------ C13

fn inner<'a, 'b>(e: &'b [Ev<'a>]) -> &'b [Ev<'a>] {
    &e[1..e.len() - 1]
}
/// all parts accepted alone => their concatenation is accepted and its result is the results in sequence
pub fn judge_concat(parts: &[&str]) -> (Option<String>, bool) {
    let mut want: Vec<Ev> = Vec::new();
    for p in parts {
        match run_doc(p) {
            Out::Ok(_, e) => want.extend_from_slice(inner(&e)),
            _ => return (None, false),
        }
    }
    let whole = parts.join("\n");
    match run_doc(&whole) {
        Out::Ok(_, e) => {
            if inner(&e) != &want[..] {
                return (Some(format!("joined documents give another result than the parts: {}", diff(&want, inner(&e)))), true);
            }
            (None, true)
        }
        o => (Some(format!("{} accepted documents joined are not accepted: {}", parts.len(), o.brief())), true),
    }
}
pub fn concat_one(c: &mut Ctx, w: &str, parts: &[&str]) {
    c.crumb("concat", parts);
    let (bad, ok) = judge_concat(parts);
    if !ok {
        c.observed(w, "not-all-accepted", "", 0, false);
        return;
    }
    let key = parts.join("\n");
    c.observed(w, if parts.len() > 2 { "joined-many" } else { "joined" }, &key, parts.len(), true);
    if let Some(d) = bad {
        // fewest parts that still fail
        let mut cur: Vec<&str> = parts.to_vec();
        let mut evals = 0;
        let mut size = (cur.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < cur.len() && evals < 400 {
                let mut t = cur.clone();
                t.drain(i..(i + size).min(t.len()));
                evals += 1;
                if judge_concat(&t).0.is_some() {
                    cur = t;
                } else {
                    i += size;
                }
            }
            if size == 1 || evals >= 400 {
                break;
            }
            size /= 2;
        }
        let d = judge_concat(&cur).0.unwrap_or(d);
        c.rec.violation(w, "concat", &cur, &d);
    }
}
/// `a` accepted, `b` not => `a` followed by `b` is not accepted either, for the same remaining text
pub fn judge_refused(a: &str, b: &str) -> (Option<String>, bool) {
    if !run_doc(a).is_ok() {
        return (None, false);
    }
    let rb = match run_doc(b) {
        Out::Err(_, rest, _) => rest.len(),
        _ => return (None, false),
    };
    let whole = format!("{}\n{}", a, b);
    match run_doc(&whole) {
        Out::Err(_, rest, _) if rest.len() == rb => (None, true),
        Out::Err(_, rest, _) => (Some(format!("the second document is refused with {} bytes left alone, but with {} bytes left after the first", rb, rest.len())), true),
        o => (Some(format!("a document that is refused alone is not refused after another one: {}", o.brief())), true),
    }
}
pub fn refused_one(c: &mut Ctx, w: &str, a: &str, b: &str) {
    c.crumb("refused", &[a, b]);
    let (bad, ok) = judge_refused(a, b);
    if !ok {
        c.observed(w, "not-accepted-then-refused", "", 0, false);
        return;
    }
    let key = format!("{}\n{}", a, b);
    c.observed(w, "refused-after-accepted", &key, 1, true);
    if let Some(d) = bad {
        c.rec.violation(w, "refused", &[a, b], &d);
    }
}
/// members: `b` refused in a body of its own => refused after `a` as well
pub fn judge_refused_member(pre: &str, a: &str, b: &str) -> (Option<String>, bool) {
    let body = |m: &str| format!("{} {{ {}\n}};", pre, m);
    let (x, y) = (body(a), body(b));
    if !run_doc(&x).is_ok() || !matches!(run_doc(&y), Out::Err(..)) {
        return (None, false);
    }
    let whole = body(&format!("{}\n{}", a, b));
    match run_doc(&whole) {
        Out::Err(..) => (None, true),
        o => (Some(format!("a member that is refused alone is not refused after another one: {}", o.brief())), true),
    }
}
pub fn refused_member_one(c: &mut Ctx, w: &str, pre: &str, a: &str, b: &str) {
    c.crumb("refused-member", &[pre, a, b]);
    let (bad, ok) = judge_refused_member(pre, a, b);
    if !ok {
        c.observed(w, "not-accepted-then-refused", "", 0, false);
        return;
    }
    let key = format!("{} | {} | {}", pre, a, b);
    c.observed(w, "member-refused-after-accepted", &key, 1, true);
    if let Some(d) = bad {
        c.rec.violation(w, "refused-member", &[pre, a, b], &d);
    }
}
fn body_events<'a>(e: &[Ev<'a>]) -> Option<Vec<Ev<'a>>> {
    // Vec{ Definition::X{ X{ … Braced{ { Vec{ members } } } ; } } }
    let i = e.iter().position(|x| *x == Ev::Open("Braced"))?;
    if e.get(i + 1) != Some(&Ev::Tok(K::Punct, "{")) || e.get(i + 2) != Some(&Ev::Open("Vec")) {
        return None;
    }
    let end = crate::ev::subtree_end(e, i + 2);
    Some(e[i + 3..end - 1].to_vec())
}
/// members accepted alone in a body => together they give the members in sequence
pub fn judge_members(pre: &str, ms: &[&str]) -> (Option<String>, bool) {
    let mut want: Vec<Ev> = Vec::new();
    let texts: Vec<String> = ms.iter().map(|m| format!("{} {{ {}\n}};", pre, m)).collect();
    for t in &texts {
        match run_doc(t) {
            Out::Ok(_, e) => match body_events(&e) {
                Some(b) => want.extend(b),
                None => return (None, false),
            },
            _ => return (None, false),
        }
    }
    let whole = format!("{} {{ {}\n}};", pre, ms.join("\n"));
    match run_doc(&whole) {
        Out::Ok(_, e) => match body_events(&e) {
            Some(b) if b == want => (None, true),
            Some(b) => (Some(format!("members together give another result than alone: {}", diff(&want, &b))), true),
            None => (Some("body lost".into()), true),
        },
        o => (Some(format!("{} members accepted alone are not accepted together: {}", ms.len(), o.brief())), true),
    }
}
pub fn members_one(c: &mut Ctx, w: &str, pre: &str, ms: &[&str]) {
    let mut parts = vec![pre];
    parts.extend_from_slice(ms);
    c.crumb("members", &parts);
    let (bad, ok) = judge_members(pre, ms);
    if !ok {
        c.observed(w, "not-all-accepted", "", 0, false);
        return;
    }
    let key = parts.join(" | ");
    c.observed(w, "members-together", &key, ms.len(), true);
    if let Some(d) = bad {
        c.rec.violation(w, "members", &parts, &d);
    }
}
/// a name consistently replaced changes only that name in the result
pub fn judge_rename(text: &str, from: &str, to: &str) -> (Option<String>, bool) {
    let toks = lex(text);
    if toks.iter().any(|t| t.cls == Cls::Word && unescape(t.text) == to) {
        return (None, false);
    }
    let a = match run_doc(text) {
        Out::Ok(_, e) => e,
        _ => return (None, false),
    };
    let mut s = String::new();
    let mut last = 0;
    for t in &toks {
        if t.cls == Cls::Word && unescape(t.text) == from && !is_kw(t.text) {
            s.push_str(&text[last..t.off]);
            if t.text.starts_with('_') {
                s.push('_');
            }
            s.push_str(to);
            last = t.off + t.text.len();
        }
    }
    s.push_str(&text[last..]);
    let want: Vec<Ev> = a.iter().map(|e| if *e == Ev::Tok(K::Ident, from) { Ev::Tok(K::Ident, to) } else { *e }).collect();
    match run_doc(&s) {
        Out::Ok(_, e) => {
            if e != want {
                return (Some(format!("renaming {:?} to {:?} changes more than the name: {}", from, clip(to), diff(&want, &e))), true);
            }
            (None, true)
        }
        o => (Some(format!("renaming {:?} to {:?} makes the document refused: {}", from, clip(to), o.brief())), true),
    }
}
pub fn rename_one(c: &mut Ctx, w: &str, text: &str, from: &str, to: &str) {
    c.crumb("rename", &[text, from, to]);
    let (bad, ok) = judge_rename(text, from, to);
    if ok {
        let key = format!("{} -> {} in {}", from, to, text);
        c.observed(w, "renamed", &key, 1, true);
    }
    if let Some(d) = bad {
        c.rec.violation(w, "rename", &[text, from, to], &d);
    }
}

/// `b` with its names replaced by names of `a`
fn sharing(a: &str, b: &str) -> Vec<String> {
    let names = |t: &str| {
        let mut v: Vec<String> = words(t).into_iter().filter(|w| crate::pool::is_name(w) && !is_kw(w)).collect();
        v.sort();
        v.dedup();
        v
    };
    let (na, nb) = (names(a), names(b));
    let mut out = Vec::new();
    for x in &na {
        for y in &nb {
            if x != y {
                out.push(words(b).into_iter().map(|w| if w == *y { x.clone() } else { w }).collect::<Vec<_>>().join(" "));
            }
        }
        out.push(words(b).into_iter().map(|w| if nb.contains(&w) { x.clone() } else { w }).collect::<Vec<_>>().join(" "));
    }
    out
}

pub fn c13(c: &mut Ctx) {
    // neighbours that speak of the same names
    let salt = c.seed as usize;
    for (i, a) in DEFS.iter().enumerate() {
        for (j, b) in DEFS.iter().enumerate() {
            if c.mine() {
                for (k, b) in sharing(a, b).into_iter().enumerate() {
                    if c.thorough || k < 4 || (k + i + j + salt) % 3 == 0 {
                        concat_one(c, "same-names", &[a, &b]);
                        concat_one(c, "same-names", &[&b, a]);
                        concat_one(c, "same-names", &[a, "typedef long Between;", &b]);
                    }
                }
            }
        }
        if c.stop() {
            return;
        }
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        for (i, a) in ms.iter().enumerate() {
            for (j, b) in ms.iter().enumerate() {
                if c.mine() {
                    for (k, b) in sharing(a, b).into_iter().enumerate() {
                        if c.thorough || (k + i + j + salt) % 3 == 0 {
                            members_one(c, "same-names", pre, &[a, &b]);
                        }
                    }
                }
            }
            if c.stop() {
                return;
            }
        }
    }
    // pairs and triples of definitions and of members
    for a in DEFS {
        for b in DEFS {
            if c.mine() {
                concat_one(c, "definition-pairs", &[a, b]);
            }
        }
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("partial interface I", IF_MEMBERS), ("callback interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("partial interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("partial namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS), ("partial dictionary I", DICT_MEMBERS)] {
        for a in ms {
            for b in ms {
                if c.mine() {
                    members_one(c, "member-pairs", pre, &[a, b]);
                }
            }
            if c.stop() {
                return;
            }
        }
        let mut rng = c.rng(pre);
        for _ in 0..if c.thorough { 4000 } else { 250 } {
            let n = match rng.below(10) {
                0 => rng.range(20, 300),
                1 => rng.range(8, 20),
                _ => rng.range(3, 7),
            };
            let v: Vec<&str> = (0..n).map(|_| *rng.pick(ms)).collect();
            members_one(c, "member-runs", pre, &v);
            if c.stop() {
                return;
            }
        }
        for (n, m) in c.pool.sizes(if c.thorough { 20_000 } else { 5_000 }).into_iter().zip(ms.iter().cycle()) {
            if c.mine() && n > 0 {
                let v: Vec<&str> = (0..n).map(|i| if i % 7 == 3 { ms[i % ms.len()] } else { *m }).collect();
                members_one(c, "member-many", pre, &v);
            }
        }
    }
    // what is refused stays refused in company
    let salt = c.seed as usize;
    for b in DEFS {
        for e in small_edits(&words(b)) {
            let e = e.join(" ");
            for (k, a) in DEFS.iter().enumerate() {
                if c.mine() && (c.thorough || k % 2 == salt % 2 || e.starts_with("partial")) {
                    refused_one(c, "refused-pairs", a, &e);
                }
            }
        }
        if c.stop() {
            return;
        }
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        for b in ms {
            for e in small_edits(&words(b)) {
                let e = e.join(" ");
                for (k, a) in ms.iter().enumerate() {
                    if c.mine() && (c.thorough || k % 2 == salt % 2) {
                        refused_member_one(c, "refused-members", pre, a, &e);
                    }
                }
            }
            if c.stop() {
                return;
            }
        }
    }
    // random documents, joined, reordered, split
    let g = Grammar::load();
    let defs = g.rule("Definitions");
    let def = g.rule("Definition");
    let mut gen = Gen::new(&g, c.rng("c13"));
    let mut rng = c.rng("c13-style");
    let n = if c.thorough { 60_000 } else { 3_000 };
    let mut pool: Vec<String> = corpus(c).iter().flat_map(|(_, t)| split_defs(t)).filter(|d| d.len() < 200).map(|d| d.join(" ")).collect();
    pool.extend(DEFS.iter().map(|s| s.to_string()));
    for s in ["", "// only a comment", "/* x */", "\n", " "] {
        pool.push(s.to_string());
    }
    for i in 0..n {
        if c.stop() {
            return;
        }
        if i % 20 == 0 {
            let mut p = preset(&mut rng, "C13");
            p.list_max = p.list_max.min(3);
            apply(&mut gen, p);
        }
        let t = gen_tokens(c, &mut gen, if rng.chance(2, 3) { def } else { defs }, rng.chance(1, 6));
        if t.len() > 300 || attr_arg_nesting(&t) > 3 {
            continue;
        }
        let mut t = t;
        if rng.chance(1, 5) {
            // also whatever else is accepted
            mutate(&mut t, &[], c, &mut rng);
            if attr_arg_nesting(&t) > 4 {
                continue;
            }
        }
        let st = style(&mut rng);
        let Some(a) = render_checked(&t, st, &mut rng, &c.pool) else { continue };
        let k = match rng.below(12) {
            0 => rng.range(30, 400),
            1 | 2 => rng.range(5, 30),
            _ => rng.range(1, 3),
        };
        let mut parts: Vec<&str> = (0..k).map(|_| pool[rng.below(pool.len())].as_str()).collect();
        let at = rng.below(parts.len() + 1);
        parts.insert(at, &a);
        if rng.chance(1, 3) {
            parts.push(&a);
        }
        concat_one(c, "joined", &parts);
        {
            let mut m = t.clone();
            mutate(&mut m, &[], c, &mut rng);
            if attr_arg_nesting(&m) <= 4 {
                if let Some(b) = render_checked(&m, st, &mut rng, &c.pool) {
                    let whole = parts.join("\n");
                    refused_one(c, "refused-joined", &whole, &b);
                }
            }
        }
        // renaming
        let names: Vec<&str> = lex(&a).iter().filter(|t| t.cls == Cls::Word && !is_kw(t.text)).map(|t| t.text).collect::<Vec<_>>();
        for _ in 0..2.min(names.len()) {
            let from = unescape(names[rng.below(names.len())]);
            let mut to = c.pool.name(&mut rng, true);
            if to.starts_with('_') {
                to = to[1..].to_string();
            }
            if is_kw(&to) || is_kw(from) || crate::pool::is_name(&to) == false {
                continue;
            }
            rename_one(c, "renamed", &a, from, &to);
        }
        if run_doc(&a).is_ok() {
            let ix = rng.below(pool.len());
            pool[ix] = a;
        }
    }
    // many neighbours
    for n in c.pool.sizes(if c.thorough { 70_000 } else { 9_000 }) {
        if !c.mine() || c.stop() {
            continue;
        }
        let d = DEFS[n % DEFS.len()];
        let v: Vec<&str> = (0..n).map(|i| if i % 5 == 4 { DEFS[(i / 5) % DEFS.len()] } else { d }).collect();
        concat_one(c, "many-definitions", &v);
    }
    // whole sample documents: each against its definitions one by one
    for (_, text) in corpus(c) {
        if c.mine() {
            let d: Vec<String> = split_defs(&text).iter().map(|t| t.join(" ")).collect();
            let v: Vec<&str> = d.iter().map(|s| s.as_str()).collect();
            concat_one(c, "corpus-split", &v);
        }
    }
}

// ------------------------------------------------------------------------------------------------ C17

struct Conv {
    by_rule: std::collections::HashMap<String, Vec<&'static str>>,
    r: crate::laws::Report,
}
impl crate::laws::ConvSink for Conv {
    fn texts(&self, name: &str) -> Vec<&'static str> {
        self.by_rule.get(name).cloned().unwrap_or_default()
    }
    fn report(&mut self) -> &mut crate::laws::Report {
        &mut self.r
    }
}
/// small changes to a token sequence that usually keep it an instance but change its contents
pub fn variants(t: &[String], c: &Ctx, rng: &mut Rng, n: usize) -> Vec<Vec<String>> {
    let mut out = Vec::new();
    for _ in 0..n {
        if t.is_empty() {
            break;
        }
        let mut v = t.to_vec();
        let i = rng.below(v.len());
        let l = lex(&v[i]).first().map(|t| t.cls);
        match l {
            Some(Cls::Word) if !is_kw(&v[i]) => {
                let x = v[i].clone();
                v[i] = match rng.below(7) {
                    0 => format!("{}x", x),
                    1 => format!("{}_", x),
                    2 => if x.starts_with('_') { x[1..].to_string() } else { format!("_{}", x) },
                    3 => x.chars().map(|ch| if ch.is_ascii_lowercase() { ch.to_ascii_uppercase() } else { ch.to_ascii_lowercase() }).collect(),
                    4 => format!("x{}", x.trim_start_matches('_')),
                    5 => {
                        let mut y = x.clone();
                        let ch = y.pop().unwrap_or('a');
                        y.push(if ch == 'a' { 'b' } else { 'a' });
                        y
                    }
                    _ => c.pool.name(rng, true),
                };
                if is_kw(&v[i]) || !crate::pool::is_name(&v[i]) {
                    v[i] = "q".into();
                }
            }
            Some(Cls::Str) => {
                let x = v[i][1..v[i].len() - 1].to_string();
                v[i] = match rng.below(5) {
                    0 => format!("\"{}x\"", x),
                    1 => format!("\" {}\"", x),
                    2 => "\"\"".into(),
                    3 => format!("\"{}\"", x.to_uppercase()),
                    _ => format!("\"{}\"", c.pool.string_content(rng, true)),
                };
            }
            Some(Cls::Dec) | Some(Cls::Hex) | Some(Cls::Oct) | Some(Cls::Float) => {
                v[i] = match rng.below(3) {
                    0 => format!("{}0", v[i]),
                    1 => format!("-{}", v[i].trim_start_matches('-')),
                    _ => gen_class_token(c, rng),
                };
            }
            _ => mutate(&mut v, t, c, rng),
        }
        out.push(v);
    }
    out
}
pub fn laws_texts(c: &mut Ctx, e: &Entry, texts: &[String], w: &str) {
    let mut refs: Vec<&str> = texts.iter().map(|s| s.as_str()).collect();
    let mut parts = vec![e.name];
    parts.extend(&refs);
    c.crumb("laws", &parts);
    // texts that share memory: same start or same end, different length
    for t in texts.iter().filter(|t| t.len() > 1 && t.len() < 300).take(2) {
        let last = lex(t).last().map_or(0, |k| k.off);
        let cuts: Vec<usize> = t.char_indices().map(|x| x.0).filter(|i| *i > last).collect();
        for i in cuts.iter().rev().take(3) {
            refs.push(&t[..*i]);
        }
        let first = lex(t).first().map_or(0, |k| k.off + k.text.len());
        for (i, _) in t.char_indices().filter(|x| x.0 > 0 && x.0 < first).take(3) {
            refs.push(&t[i..]);
        }
    }
    let mut r = crate::laws::Report::default();
    (e.laws)(&refs, &mut r);
    c.rec.evaluations += r.pairs;
    c.rec.events += r.values;
    c.rec.count(&format!("{}/equal-pairs", w), r.equal_pairs);
    c.rec.count(&format!("{}/unequal-pairs", w), r.unequal_pairs);
    c.rec.count(&format!("{}/values", w), r.values);
    for t in &refs {
        let key = format!("{} <- {}", e.name, t);
        if c.rec.distinct.insert(fnv(key.as_bytes())) {
            c.rec.sample(w, &key);
        }
    }
    for (d, p) in r.bad {
        let mut v = vec![e.name];
        v.extend(p.iter().map(|s| s.as_str()));
        c.rec.violation(w, "laws", &v, &d);
    }
}

pub fn c17(c: &mut Ctx) {
    let g = Grammar::load();
    let mut gen = Gen::new(&g, c.rng("c17"));
    let mut rng = c.rng("c17-style");
    let es = c.entries.clone();
    let rounds = if c.thorough { 120 } else { 8 };
    // conversions into the sum types; the texts live as long as the process
    let mut conv = Conv { by_rule: Default::default(), r: Default::default() };
    for round in 0..rounds {
        let mut p = preset(&mut rng, "C17");
        p.list_max = p.list_max.min(2);
        p.depth = p.depth.min(16);
        apply(&mut gen, p);
        for e in &es {
            if c.stop() {
                return;
            }
            let rule = g.rule(e.rule);
            let mut seqs: Vec<Vec<String>> = Vec::new();
            for _ in 0..6 {
                let t = gen_tokens(c, &mut gen, rule, rng.chance(1, 3));
                if t.len() < 200 && attr_arg_nesting(&t) <= 2 {
                    seqs.push(t);
                }
            }
            let mut all: Vec<Vec<String>> = Vec::new();
            for s in &seqs {
                all.push(s.clone());
                all.extend(variants(s, c, &mut rng, 6));
            }
            let mut texts: Vec<String> = Vec::new();
            for s in &all {
                if attr_arg_nesting(s) > 3 {
                    continue;
                }
                let st = style(&mut rng);
                if let Some(x) = render_checked(s, st, &mut rng, &c.pool) {
                    texts.push(x);
                }
                // the same tokens once more from other memory with other whitespace
                if rng.chance(1, 3) {
                    if let Some(x) = render_checked(s, Style::Dense, &mut rng, &c.pool) {
                        texts.push(x);
                    }
                }
            }
            laws_texts(c, e, &texts, "laws");
            if round < 3 {
                for s in seqs.iter().take(3) {
                    conv.by_rule.entry(e.rule.to_string()).or_default().push(Box::leak(s.join(" ").into_boxed_str()));
                }
            }
        }
        if round == 0 {
            // fixed families: all base blocks against each other
            let find = |n: &str| *es.iter().find(|e| e.rule == n).unwrap();
            let own = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
            if c.shard % 4 == 0 {
                let mut tys = own(BASE_TYPES);
                for w in TYPE_WRAPS {
                    for b in ["any", "long", "unsigned long", "Foo", "DOMString"] {
                        tys.push(w.replace('@', b));
                    }
                }
                laws_texts(c, &find("Type"), &tys, "laws-blocks");
                laws_texts(c, &find("NonAnyType"), &tys, "laws-blocks");
                laws_texts(c, &find("ReturnType"), &tys, "laws-blocks");
            }
            if c.shard % 4 == 1 {
                laws_texts(c, &find("Definition"), &own(DEFS), "laws-blocks");
                laws_texts(c, &find("InterfaceMember"), &own(IF_MEMBERS), "laws-blocks");
                laws_texts(c, &find("MixinMember"), &own(MIXIN_MEMBERS), "laws-blocks");
                laws_texts(c, &find("NamespaceMember"), &own(NS_MEMBERS), "laws-blocks");
                laws_texts(c, &find("DictionaryMember"), &own(DICT_MEMBERS), "laws-blocks");
            }
            if c.shard % 4 == 2 {
                laws_texts(c, &find("DefaultValue"), &own(VALUES), "laws-blocks");
                laws_texts(c, &find("ConstValue"), &own(VALUES), "laws-blocks");
                laws_texts(c, &find("IntegerLit"), &own(VALUES), "laws-blocks");
                laws_texts(c, &find("FloatLit"), &own(VALUES), "laws-blocks");
                laws_texts(c, &find("ExtendedAttribute"), &own(ATTR_FORMS), "laws-blocks");
                laws_texts(c, &find("Argument"), &own(ARG_FORMS), "laws-blocks");
                laws_texts(c, &find("ArgumentList"), &own(ARG_FORMS), "laws-blocks");
            }
            if c.shard % 4 == 3 {
                // contents that differ in one place only, and in length
                let mut names = Vec::new();
                for n in c.pool.sizes(2000) {
                    names.push(format!("a{}", "b".repeat(n)));
                    names.push(format!("a{}c", "b".repeat(n)));
                    if names.len() > 150 {
                        break;
                    }
                }
                laws_texts(c, &find("Identifier"), &names, "laws-blocks");
                let lists: Vec<String> = (0..60).map(|n| (0..n).map(|i| format!("a{}", i % 3)).collect::<Vec<_>>().join(",")).collect();
                laws_texts(c, &find("W_ListIdent"), &lists, "laws-blocks");
                let lists: Vec<String> = (0..60).map(|n| (0..n).map(|i| format!("A{} includes B;", i % 3)).collect::<Vec<_>>().join(" ")).collect();
                laws_texts(c, &find("Definitions"), &lists, "laws-blocks");
            }
        }
    }
    #[cfg(feature = "laws")]
    crate::dump::conversions(&mut conv);
    c.rec.evaluations += conv.r.conversions;
    c.rec.count("conversions/checked", conv.r.conversions);
    c.rec.max("conversions/kinds", conv.r.conv_kinds.len() as u64);
    for (d, p) in conv.r.bad {
        let v: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
        c.rec.violation("conversions", "conv", &v, &d);
    }
}

// ------------------------------------------------------------------------------------------------ C09

pub fn sane_one(c: &mut Ctx, w: &str, e: &Entry, text: &str) {
    c.crumb("sane", &[e.name, text]);
    // exact allocation: a read past the text leaves the allocation (seen by AddressSanitizer)
    let b: Box<str> = text.into();
    let out = (e.f)(&b);
    let v = mon::eval_sane(&b, &out);
    c.observed(w, v.tag, &format!("{} <- {}", e.name, text), v.events, true);
    if let Some(d) = v.violation {
        c.rec.violation(w, "sane", &[e.name, text], &format!("{}: {}", e.name, d));
    }
}
pub fn c09(c: &mut Ctx, light: bool) {
    let es = c.entries.clone();
    let mut rng = c.rng("c09");
    let k = |c: &Ctx, l: usize, q: usize, t: usize| if light { l } else if c.thorough { t } else { q };
    // characters: every text to the document parser and to a changing handful of elements
    let n = k(c, 3_000, 25_000, 400_000);
    {
        let es = es.clone();
        let mut r = c.rng("c09-entries");
        let mut sink = move |c: &mut Ctx, w: &str, t: &str| {
            let b: Box<str> = t.into();
            c.doc(w, &b);
            for _ in 0..4 {
                let e = es[r.below(es.len())];
                sane_one(c, "elements-chars", &e, t);
            }
        };
        for t in c.kept.clone().iter().skip(c.shard).step_by(c.nshards).take(n) {
            sink(c, "guided-kept", t);
        }
        w_char(c, n, &mut sink);
        w_mut(c, n / 10, &mut sink);
        w_random(c, n / 20, &mut sink);
    }
    // pure noise, short and exhaustive
    let alpha = ["\"", "/", "*", "-", "_", ".", "0", "x", "e", "(", "[", "é", "\n", "a", "<", "\u{0}", "🦀"];
    let max = if light { 2 } else if c.thorough { 4 } else { 3 };
    let every = es.clone();
    exhaustive(c, &alpha, max, |c, s| {
        if s.chars().count() <= 2 || c.thorough {
            for e in &every {
                sane_one(c, "noise-exhaustive", e, s);
            }
        } else {
            let i = fnv(s.as_bytes()) as usize;
            for j in 0..10 {
                sane_one(c, "noise-exhaustive", &every[(i + j * 11) % every.len()], s);
            }
        }
    });
    // every single character, alone and at the edges of every kind of element
    let mut chars: Vec<char> = (0u32..0x180).filter_map(char::from_u32).collect();
    chars.extend(['\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{301}', '\u{200d}', '\u{661}', '\u{ff10}']);
    for ch in chars {
        for e in &es {
            if c.stop() {
                return;
            }
            if c.mine() && (!light || rng.chance(1, 6)) {
                sane_one(c, "single-characters", e, &ch.to_string());
            }
        }
        for t in ["interface@", "interface A@", "interface A { @", "typedef long@", "\"@", "[A@", "0x@", "1.@", "-@", "_@", "/*@", "//@", "1e@", "callback C = undefined (long@", "enum E { \"@\" @", "@typedef long A;@"] {
            if c.mine() {
                let s = t.replace('@', &ch.to_string());
                c.doc("single-characters", &s);
                let e = es[rng.below(es.len())];
                sane_one(c, "single-characters", &e, &s);
            }
        }
    }
    // truncations of valid texts at every character
    let mut base: Vec<String> = DEFS.iter().map(|s| s.to_string()).collect();
    base.extend(IF_MEMBERS.iter().map(|m| format!("interface I {{ {} }};", m)));
    base.extend(VALUES.iter().map(|v| format!("dictionary D {{ any x = {}; }};", v)));
    base.extend(ATTR_FORMS.iter().map(|v| format!("[ {} ] enum E {{ \"é🦀\" , }} ; // é🦀", v)));
    for b in base {
        let idx: Vec<usize> = b.char_indices().map(|x| x.0).collect();
        for i in idx {
            if c.mine() {
                c.doc("truncated", &b[..i]);
                c.doc("truncated", &b[i..]);
            }
        }
    }
    // instances of every element, cut at every character, to that element's own parser
    {
        let mut some: Vec<(Entry, String)> = Vec::new();
        w_entry(c, k(c, 2, 12, 200), |_, e, core, _| some.push((*e, core.to_string())));
        for (e, t) in some {
            let idx: Vec<usize> = t.char_indices().map(|x| x.0).chain([t.len()]).collect();
            for i in idx.iter().filter(|i| **i <= 60).chain(idx.iter().rev().take(40)) {
                sane_one(c, "elements-cut", &e, &t[..*i]);
            }
            if c.stop() {
                return;
            }
        }
        // every word of the language to every element
        for w in vocabulary() {
            for e in &es {
                if c.mine() {
                    sane_one(c, "words-alone", e, &w);
                }
            }
        }
    }
    if !light {
        let es2 = es.clone();
        // sizes and hostile families, on the document parser and on some elements
        for (name, f, max) in crate::sized::dims().into_iter().chain(crate::sized::hostile_families()) {
            let sizes = c.pool.sizes(max.min(if c.thorough { 70_000 } else { 9_000 }));
            for n in sizes {
                if c.stop() {
                    return;
                }
                if !c.mine() || f(40).len().saturating_sub(f(20).len()).max(20) / 20 * n > 600_000 {
                    continue;
                }
                if name.starts_with("x-open") && n > 200 {
                    continue;
                }
                let t = f(n);
                c.doc(&format!("size:{}", name), &t);
                if t.len() < 50_000 {
                    let e = es2[rng.below(es2.len())];
                    sane_one(c, "elements-sized", &e, &t);
                }
            }
        }
        guided(c);
    }
}
/// nesting to a given depth on the stack this process was given
pub fn deep(name: &str, n: usize) -> i32 {
    let t = match name {
        "sequence" => format!("typedef {}long{} T;", "sequence<".repeat(n), ">".repeat(n)),
        "union" => format!("typedef {}(a or b){} T;", "(".repeat(n), " or c)".repeat(n)),
        "record" => format!("typedef {}long{} T;", "record<DOMString,".repeat(n), ">".repeat(n)),
        "promise" => format!("typedef {}long{} T;", "Promise<".repeat(n), ">".repeat(n)),
        "frozen-array" => format!("typedef {}long{} T;", "FrozenArray<".repeat(n), ">".repeat(n)),
        "open-sequence" => format!("typedef {}", "sequence<".repeat(n)),
        "open-union" => format!("typedef {}", "(".repeat(n)),
        "argument-sequence" => format!("interface I {{ undefined f({}long{} x); }};", "sequence<".repeat(n), ">".repeat(n)),
        _ => return 2,
    };
    match run_doc(&t) {
        Out::Panic(m) => {
            println!("DEEP {} {} panic {}", name, n, m);
            1
        }
        o => {
            println!("DEEP {} {} {}", name, n, if o.is_ok() { "accepted" } else { "refused" });
            0
        }
    }
}
pub const DEEP: &[&str] = &["sequence", "union", "record", "promise", "frozen-array", "open-sequence", "open-union", "argument-sequence"];
/// coverage-guided: texts that reach new edges of the parser are kept and changed further (instrumented build only)
fn guided(c: &mut Ctx) {
    if crate::steps::GUARDS.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        return;
    }
    let chars: Vec<char> = CHARS.chars().collect();
    let mut rng = c.rng("guided");
    let es = c.entries.clone();
    let mut corpus: Vec<(usize, String)> = DEFS.iter().map(|s| (usize::MAX, s.to_string())).collect();
    let n = if c.thorough { 400_000 } else { 25_000 };
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let (ei, s) = corpus[rng.below(corpus.len())].clone();
        let ei = if rng.chance(1, 4) { rng.below(es.len()) } else { ei };
        let mut v: Vec<char> = s.chars().collect();
        for _ in 0..rng.range(1, 4) {
            let i = rng.below(v.len() + 1);
            match rng.below(6) {
                0 | 1 => v.insert(i, *rng.pick(&chars)),
                2 if i < v.len() => v[i] = *rng.pick(&chars),
                3 if i < v.len() => {
                    let j = (i + rng.range(1, 6)).min(v.len());
                    v.drain(i..j);
                }
                4 => {
                    let t = c.pool.any_token(&mut rng);
                    for (k, x) in t.chars().enumerate() {
                        v.insert((i + k).min(v.len()), x);
                    }
                }
                _ => {
                    let o = corpus[rng.below(corpus.len())].1.clone();
                    let o: Vec<char> = o.chars().collect();
                    if !o.is_empty() {
                        let a = rng.below(o.len());
                        let l = rng.range(1, 20).min(o.len() - a);
                        for (k, x) in o[a..a + l].iter().enumerate() {
                            v.insert((i + k).min(v.len()), *x);
                        }
                    }
                }
            }
        }
        if v.len() > 300 {
            v.truncate(300);
        }
        let t: String = v.into_iter().collect();
        if attr_arg_nesting(&words(&t)) > 4 {
            continue;
        }
        let before = crate::steps::new_edges();
        if ei == usize::MAX {
            c.doc("guided", &t);
        } else {
            sane_one(c, "guided", &es[ei], &t);
        }
        if crate::steps::new_edges() != before {
            corpus.push((ei, t));
            c.rec.count("guided-kept", 1);
        }
    }
}

// ------------------------------------------------------------------------------------------------ small helpers for replay

pub fn replay_kind(c: &mut Ctx, kind: &str, p: &[String]) -> bool {
    let v: Vec<&str> = p.iter().map(|s| s.as_str()).collect();
    let es = c.entries.clone();
    let ent = |n: &str| *es.iter().find(|e| e.name == n).expect("entry");
    match kind {
        "doc" => c.doc("replay", v[0]),
        "entry" => c.entry("replay", &ent(v[0]), v[1], v[2]),
        "trivia" => trivia_pair(c, "replay", v[0], v[1]),
        "term" => term_case(c, "replay", v[0], v[1]),
        "ident" => ident_one(c, "replay", v[0]),
        "follow" => follow_one(c, "replay", &ent(v[0]), v[1], v[2]),
        "any" => any_one(c, "replay", &ent(v[0]), v[1]),
        "concat" => concat_one(c, "replay", &v),
        "members" => members_one(c, "replay", v[0], &v[1..]),
        "refused" => refused_one(c, "replay", v[0], v[1]),
        "refused-member" => refused_member_one(c, "replay", v[0], v[1], v[2]),
        "rename" => rename_one(c, "replay", v[0], v[1], v[2]),
        "laws" => {
            let t: Vec<String> = p[1..].to_vec();
            laws_texts(c, &ent(v[0]), &t, "replay")
        }
        "growth" => {
            let (name, f, max) = crate::c15::find(v[0]).expect("family");
            crate::c15::family(c, name, f, max, 300_000)
        }
        "pump" => crate::c15::replay_pump(c, p),
        "sane" => sane_one(c, "replay", &ent(v[0]), v[1]),
        _ => return false,
    }
    true
}
#[allow(dead_code)]
fn unused(_: &[Tok], g: &Grammar) -> bool {
    let _ = guarded(|| 0);
    loose_ok(g, 0, &[])
}
