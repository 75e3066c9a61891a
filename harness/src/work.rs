//! Workloads: where the texts come from. What is done with a text is up to the property's monitor (the sink).
use crate::bases::*;
use crate::ctx::Ctx;
use crate::dump::KW_TEXTS;
use crate::grammar::{Class, Gen};
use crate::lex::{lex, Cls, PUNCTS};
use crate::pool::rand_char;
use crate::render::{render_checked, Style};
use crate::rng::Rng;

pub type Sink<'s> = &'s mut dyn FnMut(&mut Ctx, &str, &str);

pub fn style(rng: &mut Rng) -> Style {
    match rng.below(10) {
        0..=2 => Style::Minimal,
        3..=5 => Style::Spaced,
        6..=8 => Style::Random,
        _ => Style::Dense,
    }
}
pub fn words(s: &str) -> Vec<String> {
    lex(s).iter().map(|t| t.text.to_string()).collect()
}
pub fn emit<S: AsRef<str>>(c: &mut Ctx, w: &str, toks: &[S], rng: &mut Rng, sink: Sink) {
    let st = style(rng);
    if let Some(t) = render_checked(toks, st, rng, &c.pool) {
        sink(c, w, &t);
    }
}
fn fill(t: &str, x: &str) -> String {
    t.replace('@', x)
}

#[derive(Clone, Copy)]
pub struct Preset {
    pub depth: usize,
    pub opt_p: usize,
    pub attr_p: usize,
    pub list_max: usize,
    pub rec_w: usize,
    pub hostile: bool,
}
pub fn preset(rng: &mut Rng, prop: &str) -> Preset {
    let mut p = Preset {
        depth: *rng.pick(&[10, 14, 18, 22, 26]),
        opt_p: *rng.pick(&[20, 45, 70]),
        attr_p: *rng.pick(&[0, 10, 20, 40]),
        list_max: *rng.pick(&[1, 2, 3, 5]),
        rec_w: *rng.pick(&[1, 2, 4]),
        hostile: rng.chance(3, 4),
    };
    match prop {
        "C03" => {
            p.depth = *rng.pick(&[18, 24, 32, 40]);
            p.rec_w = *rng.pick(&[4, 8, 16]);
            p.list_max = *rng.pick(&[1, 2]);
            p.attr_p = *rng.pick(&[0, 10, 25]);
        }
        "C05" => {
            p.attr_p = *rng.pick(&[40, 60, 80]);
            p.depth = *rng.pick(&[12, 16, 20]);
            p.list_max = *rng.pick(&[1, 2, 3]);
        }
        "C06" => {
            p.list_max = *rng.pick(&[2, 4, 6]);
            p.attr_p = *rng.pick(&[0, 15, 30]);
        }
        _ => {}
    }
    // attribute lists inside attribute arguments multiply the work of the parser (recorded finding of C15)
    if p.attr_p >= 40 {
        p.depth = p.depth.min(20);
    }
    p
}

pub struct Source {
    pub few: bool,
}
/// a name that is easily taken for `n`: other case, longer, shorter, escaped
pub fn related(n: &str, rng: &mut Rng) -> String {
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let ch: Vec<char> = n.chars().collect();
    let first = ch.iter().position(|c| c.is_ascii_alphabetic()).unwrap_or(0);
    let s: String = match rng.below(8) {
        0 | 1 => ch.iter().enumerate().map(|(i, c)| if i == first { flip(*c) } else { *c }).collect(),
        2 => ch.iter().map(|c| flip(*c)).collect(),
        3 => n.to_lowercase(),
        4 => n.to_uppercase(),
        5 => format!("{}{}", n, rng.pick(&["s", "1", "_", "-", "x"])),
        6 if ch.len() > first + 2 => ch[..ch.len() - 1].iter().collect(),
        _ => {
            if let Some(r) = n.strip_prefix('_') {
                r.to_string()
            } else {
                format!("_{}", n)
            }
        }
    };
    if crate::pool::is_name(&s) && !crate::grammar::is_kw(&s) {
        s
    } else {
        n.to_string()
    }
}
/// a fresh generated token sequence for rule `rule`
pub fn gen_tokens(c: &Ctx, gen: &mut Gen, rule: usize, few: bool) -> Vec<String> {
    let mut t = gen.generate(rule, &c.pool);
    if few {
        // two names, two strings for the whole text: duplicates everywhere
        let rng = &mut gen.rng;
        let names = [c.pool.name(rng, true), c.pool.name(rng, true)];
        let names = match rng.below(3) {
            0 => names,
            _ => {
                let b = related(&names[0], rng);
                [names[0].clone(), b]
            }
        };
        let strs = [format!("\"{}\"", c.pool.string_content(rng, true)), if rng.chance(1, 2) { "\"a\"".to_string() } else { format!("\"{}\"", names[0]) }];
        for x in t.iter_mut() {
            let l = lex(x);
            if l.len() == 1 {
                match l[0].cls {
                    Cls::Word if !crate::grammar::is_kw(x) => *x = names[rng.below(2)].clone(),
                    Cls::Str => *x = strs[rng.below(2)].clone(),
                    _ => {}
                }
            }
        }
    }
    t
}
/// limit of tokens up to which a generated text is used
pub const MAX_TOKS: usize = 1200;

/// how deeply extended-attribute argument lists nest
pub fn attr_arg_nesting<S: AsRef<str>>(t: &[S]) -> usize {
    let mut st: Vec<char> = Vec::new();
    let mut best = 0;
    for x in t {
        match x.as_ref() {
            "[" => st.push('['),
            "(" => st.push('('),
            "]" | ")" => {
                st.pop();
            }
            _ => {}
        }
        let n = st.windows(2).filter(|w| w[0] == '[' && w[1] == '(').count();
        best = best.max(n);
    }
    best
}

pub fn w_random(c: &mut Ctx, n: usize, sink: Sink) {
    let g = crate::grammar::Grammar::load();
    let defs = g.rule("Definitions");
    let mut gen = Gen::new(&g, c.rng("random"));
    let mut rng = c.rng("random-style");
    for i in 0..n {
        if c.stop() {
            break;
        }
        if i % 20 == 0 {
            apply(&mut gen, preset(&mut rng, &c.prop));
        }
        let few = rng.chance(1, 6);
        let t = gen_tokens(c, &mut gen, defs, few);
        if t.len() > MAX_TOKS || attr_arg_nesting(&t) > 3 {
            continue;
        }
        self_test(c, &g, defs, &t);
        emit(c, if few { "few-names" } else { "random" }, &t, &mut rng, sink);
    }
    c.rec.max("grammar-bigrams", gen.bigrams.len() as u64);
    c.rec.max("grammar-trigrams", gen.trigrams.len() as u64);
}
/// spellings that need not be accepted but have one reading only
pub fn w_lenient(c: &mut Ctx, n: usize, sink: Sink) {
    let g = crate::grammar::Grammar::load();
    let rules = [g.rule("Definition"), g.rule("TypedefDefinition"), g.rule("CallbackDefinition"), g.rule("InterfaceDefinition")];
    let mut gen = Gen::new(&g, c.rng("lenient"));
    gen.lenient = true;
    let mut rng = c.rng("lenient-style");
    for i in 0..n {
        if c.stop() {
            break;
        }
        if i % 20 == 0 {
            apply(&mut gen, preset(&mut rng, &c.prop));
        }
        let few = rng.chance(1, 4);
        let t = gen_tokens(c, &mut gen, rules[i % rules.len()], few);
        if t.len() > MAX_TOKS || attr_arg_nesting(&t) > 3 {
            continue;
        }
        emit(c, "lenient", &t, &mut rng, sink);
    }
}
pub fn apply(gen: &mut Gen, p: Preset) {
    gen.max_depth = p.depth;
    gen.opt_p = p.opt_p;
    gen.attr_p = p.attr_p;
    gen.list_max = p.list_max;
    gen.rec_w = p.rec_w;
    gen.hostile = p.hostile;
}
/// the generator and the reference parser must agree, otherwise the machinery (not the code under test) is wrong
fn self_test(c: &mut Ctx, g: &crate::grammar::Grammar, rule: usize, t: &[String]) {
    let s = t.join(" ");
    let l = lex(&s);
    if crate::grammar::strict_parse(g, rule, &l).is_none() {
        c.rec.count("SELFTEST-FAILED", 1);
        c.rec.notes.push(format!("generated text not derivable by the reference: {}", crate::entries::clip(&s)));
    } else {
        c.rec.count("selftest-ok", 1);
    }
}

pub fn mutate(toks: &mut Vec<String>, other: &[String], c: &Ctx, rng: &mut Rng) {
    let k = match rng.below(6) {
        0 => 2,
        1 => 3,
        _ => 1,
    };
    for _ in 0..k {
        let n = toks.len();
        if n == 0 {
            toks.push(c.pool.any_token(rng));
            continue;
        }
        let i = rng.below(n);
        match rng.below(13) {
            0 | 1 => {
                toks.remove(i);
            }
            2 => {
                let t = toks[i].clone();
                toks.insert(i, t);
            }
            3 => {
                let j = rng.below(n);
                toks.swap(i, j);
            }
            4 if i + 1 < n => toks.swap(i, i + 1),
            5 | 6 => toks[i] = c.pool.any_token(rng),
            7 => toks.insert(i, c.pool.any_token(rng)),
            8 => toks.truncate(i),
            9 => {
                // move or copy a stretch
                let l = rng.range(1, 4).min(n - i);
                let part: Vec<String> = toks[i..i + l].to_vec();
                let j = rng.below(n + 1);
                for (k, t) in part.into_iter().enumerate() {
                    toks.insert((j + k).min(toks.len()), t);
                }
            }
            10 if !other.is_empty() => {
                let a = rng.below(other.len());
                let l = rng.range(1, 6).min(other.len() - a);
                for (k, t) in other[a..a + l].iter().enumerate() {
                    toks.insert((i + k).min(toks.len()), t.clone());
                }
            }
            11 => {
                // a keyword for a name or a name for a keyword
                toks[i] = if crate::grammar::is_kw(&toks[i]) { c.pool.name(rng, true) } else { KW_TEXTS[rng.below(KW_TEXTS.len())].into() };
            }
            _ => {
                let l = rng.range(1, 5).min(n - i);
                toks.drain(i..i + l);
            }
        }
    }
}

pub fn w_mut(c: &mut Ctx, n: usize, sink: Sink) {
    let g = crate::grammar::Grammar::load();
    let defs = g.rule("Definitions");
    let mut gen = Gen::new(&g, c.rng("mut"));
    let mut rng = c.rng("mut-style");
    let mut prev: Vec<String> = Vec::new();
    for i in 0..n {
        if c.stop() {
            break;
        }
        if i % 20 == 0 {
            let mut p = preset(&mut rng, &c.prop);
            p.list_max = p.list_max.min(3);
            apply(&mut gen, p);
        }
        let base = if rng.chance(1, 2) { words(rng.pick(DEFS)) } else { gen_tokens(c, &mut gen, defs, rng.chance(1, 4)) };
        if base.len() > 400 || attr_arg_nesting(&base) > 3 {
            continue;
        }
        for _ in 0..3 {
            let mut t = base.clone();
            mutate(&mut t, &prev, c, &mut rng);
            if attr_arg_nesting(&t) > 4 {
                continue;
            }
            emit(c, "mutated", &t, &mut rng, sink);
        }
        prev = base;
    }
}

pub fn vocabulary() -> Vec<String> {
    let mut v: Vec<String> = KW_TEXTS.iter().chain(PUNCTS).map(|s| s.to_string()).collect();
    for s in ["Foo", "_x", "_long", "interfaces", "x-", "0", "1", "-5", "07", "0x1F", "1.5", "-.5e3", "1e5", "\"s\"", "\"\"", "\"//\""] {
        v.push(s.to_string());
    }
    v
}

/// every single-token edit of every base definition
pub fn w_edit(c: &mut Ctx, keep_one_in: usize, sink: Sink) {
    let voc = vocabulary();
    let mut rng = c.rng("edit");
    let mut bases: Vec<String> = DEFS.iter().map(|s| s.to_string()).collect();
    for m in IF_MEMBERS {
        bases.push(format!("interface I {{ {} }} ;", m));
    }
    for m in MIXIN_MEMBERS {
        bases.push(format!("interface mixin I {{ {} }} ;", m));
    }
    for m in NS_MEMBERS {
        bases.push(format!("namespace I {{ {} }} ;", m));
    }
    for m in DICT_MEMBERS {
        bases.push(format!("dictionary I {{ {} }} ;", m));
    }
    let salt = c.seed as usize;
    for (bi, b) in bases.iter().enumerate() {
        let t = words(b);
        let n = t.len();
        let mut one = |c: &mut Ctx, v: &[String], sink: Sink| {
            if c.mine() && (keep_one_in <= 1 || (c.idx / c.nshards + salt) % keep_one_in == 0) {
                emit(c, "edit", v, &mut rng, sink);
            }
        };
        one(c, &t, sink);
        for i in 0..=n {
            if c.stop() {
                return;
            }
            if i < n {
                let mut d = t.clone();
                d.remove(i);
                one(c, &d, sink);
                let mut d = t.clone();
                d.insert(i, t[i].clone());
                one(c, &d, sink);
                let d = t[..i].to_vec();
                one(c, &d, sink);
                if i + 1 < n {
                    let mut d = t.clone();
                    d.swap(i, i + 1);
                    one(c, &d, sink);
                }
            }
            // members share their wrapper: edit it in the first of each kind only
            for w in &voc {
                if i < n && &t[i] != w {
                    let mut d = t.clone();
                    d[i] = w.clone();
                    one(c, &d, sink);
                }
                let mut d = t.clone();
                d.insert(i, w.clone());
                one(c, &d, sink);
            }
        }
        let _ = bi;
    }
}

/// one-token edits of a token sequence: each token dropped, doubled, exchanged with the next, the sequence cut there
pub fn small_edits(t: &[String]) -> Vec<Vec<String>> {
    let mut out = Vec::new();
    for i in 0..t.len() {
        let mut d = t.to_vec();
        d.remove(i);
        out.push(d);
        let mut d = t.to_vec();
        d.insert(i, t[i].clone());
        out.push(d);
        if i + 1 < t.len() && t[i] != t[i + 1] {
            let mut d = t.to_vec();
            d.swap(i, i + 1);
            out.push(d);
        }
        if i > 0 {
            out.push(t[..i].to_vec());
        }
    }
    out.sort();
    out.dedup();
    out
}
/// every kind of definition (member) followed by, or following, every small edit of every other
pub fn w_neighbours(c: &mut Ctx, keep_one_in: usize, sink: Sink) {
    let mut rng = c.rng("neighbours");
    let salt = c.seed as usize;
    let sets: [(&str, &[&str]); 5] = [("", DEFS), ("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)];
    for (pre, set) in sets {
        for b in set {
            let eds = small_edits(&words(b));
            for a in set {
                if c.stop() {
                    return;
                }
                let a = words(a);
                for e in &eds {
                    if !c.mine() || (keep_one_in > 1 && (c.idx / c.nshards + salt) % keep_one_in != 0) {
                        continue;
                    }
                    let mut v: Vec<String> = if pre.is_empty() { Vec::new() } else { words(&format!("{} {{", pre)) };
                    if rng.chance(3, 4) {
                        v.extend(a.iter().cloned());
                        v.extend(e.iter().cloned());
                    } else {
                        v.extend(e.iter().cloned());
                        v.extend(a.iter().cloned());
                    }
                    if !pre.is_empty() {
                        v.extend(["}".to_string(), ";".to_string()]);
                    }
                    emit(c, "neighbours", &v, &mut rng, sink);
                }
            }
        }
    }
}

/// tokens that may be left over behind a document, a body or a list
pub const TAILS: &[&str] = &[
    ",", ";", ".", "=", "?", ":", "<", ">", "(", ")", "[", "]", "{", "}", "-", "*", "...", "or", "( )", "[ ]", "{ }", "< >", "} ;", ") ;", "] ;", "; ;", ", ,", "? ?", "x", "x y", "x ,", ", x", "x ;",
    "1", "-1", "0x1", "1.5", "\"s\"", "\"s\" ;", "null", "true", "any", "long", "long x", "long x ;", "undefined f ( )", "[ A ]", "[ A , B ]", "[ A = b ]", "[ A = ( b , c ) ]", "[ A ( long x ) ]", "[ A ] [ B ]",
    "[ A , B ] ;", "[ A", "A , B ]", "interface", "interface x", "interface x ;", "interface x { }", "partial", "partial interface", "callback", "callback x", "callback x =", "mixin", "dictionary", "dictionary x", "enum", "enum x { }",
    "enum x {", "typedef", "typedef long", "typedef long x", "namespace", "namespace x", "x includes", "includes y ;", "x implements", "static", "readonly", "attribute", "attribute long", "const", "const long x", "required",
    "optional", "optional long x", "= 1", "= 1 ;", "= null", ": x", ": x { } ;", "getter", "stringifier", "inherit", "async", "iterable", "maplike", "setlike", "constructor", "constructor ( )", "unsigned", "unrestricted", "sequence", "record", "Promise", "( A or B )", "( x )", "raises ( x )", "- x", "_", "__x", "é", "@", "#", "%", "\"", "/*", "/",
];
/// lists of every kind and many lengths: mostly plain items, here and there something special, sometimes damaged at the end or inside
pub fn w_lists(c: &mut Ctx, n: usize, damage: usize, sink: Sink) {
    let g = crate::grammar::Grammar::load();
    let mut gen = Gen::new(&g, c.rng("lists-gen"));
    let mut rng = c.rng("lists");
    let sizes: [usize; 40] = [1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 25, 31, 32, 33, 34, 40, 41, 50, 63, 64, 65, 100, 127, 128, 129, 130, 200, 256, 257];
    const ENUMS: &[&str] = &["\"a\"", "\"\"", "\" \"", "\"b c\"", "\"//\"", "\"é\""];
    const NAMES: &[&str] = &["a", "B", "_interface", "c-d", "e_f", "x1", "Window"];
    // (in front, items, between, behind, rule of the items)
    let mut kinds: Vec<(String, &[&str], &str, String, &str)> = vec![("".into(), DEFS, "", "".into(), "Definition")];
    for (pre, ms, r) in [("interface I", IF_MEMBERS, "InterfaceMember"), ("interface I : J", IF_MEMBERS, "InterfaceMember"), ("partial interface I", IF_MEMBERS, "InterfaceMember"), ("callback interface I", IF_MEMBERS, "InterfaceMember"), ("interface mixin I", MIXIN_MEMBERS, "MixinMember"), ("partial interface mixin I", MIXIN_MEMBERS, "MixinMember"), ("namespace I", NS_MEMBERS, "NamespaceMember"), ("partial namespace I", NS_MEMBERS, "NamespaceMember"), ("dictionary I", DICT_MEMBERS, "DictionaryMember"), ("dictionary I : J", DICT_MEMBERS, "DictionaryMember"), ("partial dictionary I", DICT_MEMBERS, "DictionaryMember")] {
        kinds.push((format!("{} {{", pre), ms, "", "} ;".into(), r));
    }
    let (a, l, p, r, t) = (kinds.len(), ARG_POS.len(), ATTR_POS.len(), UNION_POS.len(), 3);
    let total = a + l + p + r + t + 4;
    for i in 0..n {
        if c.stop() {
            return;
        }
        // definitions and members get half of it
        let k = if rng.chance(1, 2) { rng.below(a) } else { rng.below(total) };
        let hole = |tpl: &str, o: &str, e: &str| {
            // the list goes into the first hole, nothing into the others
            let (x, y) = tpl.split_once('@').unwrap_or((tpl, ""));
            (format!("{}{}", x, o), format!("{}{}", e, y.replace('@', "")))
        };
        let (pre, items, sep, post, rule): (String, &[&str], &str, String, &str) = if k < a {
            kinds[k].clone()
        } else if k < a + l {
            let (x, y) = hole(ARG_POS[k - a], "", "");
            (x, ARG_FORMS, ",", y, "Argument")
        } else if k < a + l + p {
            let (x, y) = hole(ATTR_POS[k - a - l], "[ ", " ]");
            (x, ATTR_FORMS, ",", y, "ExtendedAttribute")
        } else if k < a + l + p + r {
            let (x, y) = hole(UNION_POS[k - a - l - p], "( ", " )");
            (x, BASE_TYPES, "or", y, "UnionMemberType")
        } else if k % 2 == 0 {
            (format!("{}enum E {{", if rng.chance(1, 2) { "[ A ] " } else { "" }), ENUMS, ",", "} ;".into(), "StringLit")
        } else {
            let (x, y) = hole(ATTR_POS[rng.below(p)], "[ A = ( ", " ) ]");
            (x, NAMES, ",", y, "Identifier")
        };
        let r = g.rule(rule);
        let len = *rng.pick(&sizes);
        let fresh = rng.chance(1, 4);
        let filler = words(items[rng.below(items.len())]);
        let small = words(items.iter().min_by_key(|x| x.len()).copied().unwrap_or("x"));
        let mut list: Vec<Vec<String>> = (0..len).map(|_| if fresh { words(items[rng.below(items.len())]) } else if filler.len() * len < 1500 { filler.clone() } else { small.clone() }).collect();
        for _ in 0..1 + rng.below(3) {
            let at = match rng.below(6) {
                0 | 1 => len - 1,
                2 => 0,
                3 => len.saturating_sub(2),
                4 => (1usize << rng.below(9)).min(len - 1),
                _ => rng.below(len),
            };
            let item = if rng.chance(2, 3) {
                words(items[rng.below(items.len())])
            } else {
                apply(&mut gen, preset(&mut rng, &c.prop));
                gen.generate(r, &c.pool)
            };
            if item.len() < 200 {
                list[at] = item;
            }
        }
        let mut v = words(&pre);
        let mut ends = Vec::new();
        for (j, it) in list.iter().enumerate() {
            if j > 0 && !sep.is_empty() {
                v.push(sep.to_string());
            }
            v.extend(it.iter().cloned());
            ends.push(v.len());
        }
        let body_end = v.len();
        v.extend(words(&post));
        if rng.below(100) < damage {
            let tail = words(TAILS[rng.below(TAILS.len())]);
            match rng.below(10) {
                0..=3 => v.extend(tail),
                4 => {
                    v.splice(body_end..body_end, tail);
                }
                5 => {
                    let at = ends[rng.below(ends.len())];
                    v.splice(at..at, tail);
                }
                6 => {
                    let at = rng.below(v.len() + 1);
                    v.splice(at..at, tail);
                }
                7 => {
                    let at = rng.below(v.len());
                    v.remove(at);
                }
                8 => {
                    let at = rng.below(v.len());
                    v.truncate(at);
                }
                _ => {
                    let mut w = tail;
                    w.extend(v);
                    v = w;
                }
            }
        }
        if attr_arg_nesting(&v) > 3 {
            continue;
        }
        let _ = i;
        emit(c, "lists", &v, &mut rng, sink);
    }
}
/// every construct many times, each with names of its own
pub fn w_many_names(c: &mut Ctx, toks: usize, sink: Sink) {
    let mut rng = c.rng("many-names");
    let mut bases: Vec<(String, &str, &str, String)> = Vec::new();
    for d in DEFS {
        bases.push(("".into(), d, "", "".into()));
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        for m in ms {
            bases.push((format!("{} {{", pre), m, "", "} ;".into()));
        }
    }
    for f in ATTR_FORMS {
        bases.push(("[".into(), f, ",", "] interface I { } ;".into()));
    }
    for f in ["Foo x", "optional Foo x = 1", "Foo ... x"] {
        bases.push(("callback C = any (".into(), f, ",", ") ;".into()));
    }
    bases.push(("enum E {".into(), "\"a\"", ",", "} ;".into()));
    bases.push(("typedef (".into(), "Foo", "or", ") T ;".into()));
    bases.push(("[ A = (".into(), "b", ",", ") ] interface I { } ;".into()));
    for (pre, b, sep, post) in &bases {
        if !c.mine() {
            continue;
        }
        if c.stop() {
            return;
        }
        let t = words(b);
        let n = (toks / (t.len() + 1)).max(2);
        let mut v = words(pre);
        let style = rng.below(3);
        let mut k = rng.below(1000);
        for j in 0..n {
            if j > 0 && !sep.is_empty() {
                v.push(sep.to_string());
            }
            for w in &t {
                let name = w.as_bytes()[0].is_ascii_alphabetic() && !crate::grammar::is_kw(w);
                let string = w.starts_with('"') && w.len() > 1;
                if name || string {
                    k += 1;
                    let x = match style {
                        0 => format!("n{}", k),
                        1 => {
                            // as short as can be
                            let (mut y, mut z) = (String::new(), k);
                            loop {
                                y.insert(0, (b'a' + (z % 26) as u8) as char);
                                z /= 26;
                                if z == 0 {
                                    break;
                                }
                            }
                            format!("{}_", y)
                        }
                        _ => format!("x{:x}-{}", (k as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 20, k % 7),
                    };
                    v.push(if string { format!("\"{}\"", x) } else { x });
                } else {
                    v.push(w.clone());
                }
            }
        }
        v.extend(words(post));
        let t = v.join(" ");
        sink(c, "many-names", &t);
    }
}

/// every part of every base text (by the grammar) written twice, exchanged with its neighbour, moved, left out, wrapped in
/// brackets, or with an empty pair of brackets beside it
pub fn w_parts(c: &mut Ctx, keep_one_in: usize, sink: Sink) {
    let g = crate::grammar::Grammar::load();
    let defs = g.rule("Definitions");
    let mut rng = c.rng("parts");
    let salt = c.seed as usize;
    let mut bases: Vec<String> = Vec::new();
    for d in DEFS {
        bases.push(d.to_string());
        bases.push(format!("[ A ] {}", d));
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        for m in ms {
            bases.push(format!("{} {{ {} }} ;", pre, m));
            bases.push(format!("{} {{ [ A ] {} }} ;", pre, m));
        }
    }
    for x in BASE_TYPES {
        bases.push(fill(rng.pick(TYPE_POS), x));
    }
    for x in ARG_FORMS {
        bases.push(fill(rng.pick(ARG_POS), x));
    }
    for x in ATTR_FORMS {
        bases.push(fill(rng.pick(ATTR_POS), &format!("[ {} ]", x)));
    }
    for b in &bases {
        if c.stop() {
            return;
        }
        let t = words(b);
        let own = t.join(" ");
        let Some(sp) = crate::grammar::spans(&g, defs, &crate::lex::lex(&own)) else { continue };
        let mut rs: Vec<(usize, usize)> = sp.iter().map(|x| (x.1, x.2)).collect();
        rs.sort();
        rs.dedup();
        let mut outs: Vec<Vec<String>> = Vec::new();
        let ins = |at: usize, v: &[String]| {
            let mut d = t.clone();
            d.splice(at..at, v.iter().cloned());
            d
        };
        for &(a, z) in &rs {
            let part = &t[a..z];
            for pair in ["[ ]", "( )", "{ }", "< >", "\"\"", "[ B ]"] {
                outs.push(ins(a, &words(pair)));
                outs.push(ins(z, &words(pair)));
            }
            if a == z {
                continue;
            }
            outs.push(ins(z, part));
            for sep in [",", "or", ";"] {
                let mut v = vec![sep.to_string()];
                v.extend(part.iter().cloned());
                outs.push(ins(z, &v));
            }
            let mut d = t.clone();
            d.drain(a..z);
            outs.push(d);
            for (o, e) in [("[", "]"), ("(", ")"), ("{", "}"), ("<", ">"), ("sequence <", ">")] {
                let mut d = t.clone();
                d.splice(z..z, words(e));
                d.splice(a..a, words(o));
                outs.push(d);
            }
            for &(b2, e2) in rs.iter().filter(|r| r.0 == z && r.1 > r.0) {
                let mut d = t.clone();
                d[a..e2].rotate_left(z - a);
                outs.push(d);
                let _ = b2;
            }
            // moved to another place
            for _ in 0..2 {
                let to = rs[rng.below(rs.len())].0;
                if to < a {
                    let mut d = t.clone();
                    d[to..z].rotate_right(z - a);
                    outs.push(d);
                } else if to > z {
                    let mut d = t.clone();
                    d[a..to].rotate_left(z - a);
                    outs.push(d);
                }
            }
        }
        outs.sort();
        outs.dedup();
        for d in outs {
            if c.mine() && (keep_one_in <= 1 || (c.idx / c.nshards + salt) % keep_one_in == 0) && attr_arg_nesting(&d) <= 3 {
                emit(c, "parts", &d, &mut rng, sink);
            }
        }
    }
}

/// combinations of the hand-written blocks
pub fn w_struct(c: &mut Ctx, deep: bool, sink: Sink) {
    let mut rng = c.rng("struct");
    let mut one = |c: &mut Ctx, w: &str, s: &str, sink: Sink| {
        if c.mine() {
            let t = words(s);
            emit(c, w, &t, &mut rng, sink);
        }
    };
    // definitions and members next to each other
    for a in DEFS {
        one(c, "pairs", a, sink);
        for b in DEFS {
            one(c, "pairs", &format!("{} {}", a, b), sink);
        }
        if c.stop() {
            return;
        }
    }
    for (pre, ms) in [("interface I", IF_MEMBERS), ("partial interface I", IF_MEMBERS), ("callback interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("partial interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("partial namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS), ("partial dictionary I", DICT_MEMBERS)] {
        for a in ms {
            one(c, "members", &format!("{} {{ {} }} ;", pre, a), sink);
            for b in ms {
                one(c, "members", &format!("{} {{ {} {} }} ;", pre, a, b), sink);
            }
        }
        if c.stop() {
            return;
        }
    }
    // members of every kind in every kind of body (mostly outside the grammar)
    for pre in ["interface I", "interface mixin I", "namespace I", "dictionary I", "partial interface I", "callback interface I : B", "partial dictionary I", "partial namespace I", "enum I"] {
        for ms in [IF_MEMBERS, MIXIN_MEMBERS, NS_MEMBERS, DICT_MEMBERS, DEFS] {
            for a in ms {
                one(c, "foreign-members", &format!("{} {{ {} }} ;", pre, a), sink);
            }
        }
    }
    // types
    let mut types: Vec<String> = BASE_TYPES.iter().map(|s| s.to_string()).collect();
    let mut l1 = Vec::new();
    for w in TYPE_WRAPS {
        for b in &types {
            l1.push(fill(w, b));
        }
    }
    for p in TYPE_POS.iter().chain(UNION_POS) {
        for t in types.iter().chain(&l1) {
            one(c, "types", &fill(p, t), sink);
        }
        if c.stop() {
            return;
        }
    }
    types.extend(l1.iter().cloned());
    let mut r2 = c.rng_common("types2");
    for w in TYPE_WRAPS {
        for b in &l1 {
            let t = fill(w, b);
            if deep {
                for p in TYPE_POS.iter().chain(UNION_POS) {
                    one(c, "types", &fill(p, &t), sink);
                }
            } else {
                for p in [TYPE_POS[r2.below(TYPE_POS.len())], TYPE_POS[0], UNION_POS[r2.below(UNION_POS.len())]] {
                    one(c, "types", &fill(p, &t), sink);
                }
            }
        }
        if c.stop() {
            return;
        }
    }
    // attributes
    let mut lists: Vec<String> = vec![String::new()];
    for a in ATTR_FORMS {
        lists.push(format!("[ {} ]", a));
        for b in ATTR_FORMS {
            lists.push(format!("[ {} , {} ]", a, b));
        }
    }
    for i in 0..60 {
        let n = 3 + i % 5;
        let v: Vec<&str> = (0..n).map(|_| *r2.pick(ATTR_FORMS)).collect();
        lists.push(format!("[ {} ]", v.join(" , ")));
    }
    for p in ATTR_POS {
        for (i, l) in lists.iter().enumerate() {
            if deep || i < 1 + ATTR_FORMS.len() || r2.chance(1, 3) {
                one(c, "attributes", &fill(p, l), sink);
            }
        }
        // different lists in different holes
        let holes = p.matches('@').count();
        if holes > 1 {
            for _ in 0..if deep { 400 } else { 60 } {
                let mut s = p.to_string();
                for _ in 0..holes {
                    s = s.replacen('@', &lists[r2.below(lists.len())], 1);
                }
                one(c, "attributes", &s, sink);
            }
        }
        if c.stop() {
            return;
        }
    }
    // arguments
    for p in ARG_POS {
        one(c, "arguments", &fill(p, ""), sink);
        for a in ARG_FORMS.iter().chain(ARG_BAD) {
            one(c, "arguments", &fill(p, a), sink);
            for b in ARG_FORMS.iter().chain(ARG_BAD) {
                if deep || r2.chance(1, 3) {
                    one(c, "arguments", &fill(p, &format!("{} , {}", a, b)), sink);
                }
            }
        }
        for _ in 0..if deep { 2000 } else { 300 } {
            let n = r2.range(3, 7);
            let v: Vec<&str> = (0..n).map(|_| *r2.pick(ARG_FORMS)).collect();
            one(c, "arguments", &fill(p, &v.join(" , ")), sink);
        }
        if c.stop() {
            return;
        }
    }
    // values: rendered without the lexer, since bad values are not single tokens
    for (p, _) in VALUE_POS {
        for v in VALUES.iter().chain(BAD_VALUES) {
            if c.mine() {
                sink(c, "values", &fill(p, v));
                let t = fill(&p.replace(" @", "@").replace("@ ", "@"), v);
                sink(c, "values", &t);
            }
        }
    }
}

pub fn split_defs(text: &str) -> Vec<Vec<String>> {
    // top-level definitions by bracket depth and semicolons (input generation only)
    let mut out = Vec::new();
    let mut cur = Vec::new();
    let mut d = 0i32;
    for t in lex(text) {
        cur.push(t.text.to_string());
        match t.text {
            "{" | "(" | "[" if t.cls == Cls::Punct => d += 1,
            "}" | ")" | "]" if t.cls == Cls::Punct => d -= 1,
            ";" if t.cls == Cls::Punct && d == 0 => out.push(std::mem::take(&mut cur)),
            _ => {}
        }
    }
    out
}
pub fn corpus(c: &Ctx) -> Vec<(String, String)> {
    let mut v = Vec::new();
    let dir = format!("{}/defs", c.tests_dir);
    if let Ok(r) = std::fs::read_dir(&dir) {
        for e in r.filter_map(|e| e.ok()) {
            if e.path().extension().map_or(false, |x| x == "webidl") {
                if let Ok(s) = std::fs::read_to_string(e.path()) {
                    v.push((e.file_name().to_string_lossy().to_string(), s));
                }
            }
        }
    }
    v.sort();
    v
}
/// the repository's own sample documents: whole, per definition, respaced, mutated
pub fn w_corpus(c: &mut Ctx, muts: usize, sink: Sink) {
    let mut rng = c.rng("corpus");
    for (_, text) in corpus(c) {
        if c.mine() {
            sink(c, "corpus-whole", &text);
        }
        let defs = split_defs(&text);
        for (i, d) in defs.iter().enumerate() {
            if c.stop() {
                return;
            }
            if !c.mine() {
                continue;
            }
            if d.len() > 3000 {
                continue;
            }
            emit(c, "corpus-definition", d, &mut rng, sink);
            if d.len() < 500 {
                let other = &defs[rng.below(defs.len())];
                for _ in 0..muts {
                    let mut t = d.clone();
                    mutate(&mut t, other, c, &mut rng);
                    if attr_arg_nesting(&t) <= 4 {
                        emit(c, "corpus-mutated", &t, &mut rng, sink);
                    }
                }
            }
            let _ = i;
        }
    }
}

/// one dimension of the text at a time, at sizes where counters, buffers and limits turn over
pub fn w_sized(c: &mut Ctx, max_bytes: usize, sink: Sink) {
    for (name, f, max) in crate::sized::dims() {
        let sizes = c.pool.sizes(max);
        for n in sizes {
            if c.stop() {
                return;
            }
            if !c.mine() {
                continue;
            }
            // estimate the size before building a huge text
            let unit = (f(40).len().saturating_sub(f(20).len())).max(20) / 20;
            if unit * n > max_bytes {
                continue;
            }
            let t = f(n);
            sink(c, &format!("size:{}", name), &t);
        }
    }
}

pub const CHARS: &str = " \t\n\r/*\"_-.0123456789abcefnlotxXAZ(){}[]<>=?,;:é🦀\u{0}\u{a0}\u{2028}@#'\\+|&\u{b}\u{c}\u{feff}\u{301}";

/// characters edited in and out of texts that are otherwise near the grammar
pub fn w_char(c: &mut Ctx, n: usize, sink: Sink) {
    let chars: Vec<char> = CHARS.chars().collect();
    let mut rng = c.rng("char");
    let corp = corpus(c);
    for _ in 0..n {
        if c.stop() {
            break;
        }
        let mut s: Vec<char> = match rng.below(8) {
            0 => Vec::new(),
            1 if !corp.is_empty() => {
                let t = &corp[rng.below(corp.len())].1;
                let t: Vec<char> = t.chars().collect();
                let a = rng.below(t.len());
                let l = rng.range(1, 400).min(t.len() - a);
                t[a..a + l].to_vec()
            }
            2 => fill(rng.pick(TYPE_POS), rng.pick(BASE_TYPES)).chars().collect(),
            3 => fill(rng.pick(ATTR_POS), &format!("[ {} ]", rng.pick(ATTR_FORMS))).chars().collect(),
            4 => fill(rng.pick(ARG_POS), rng.pick(ARG_FORMS)).chars().collect(),
            5 => fill(VALUE_POS[rng.below(VALUE_POS.len())].0, rng.pick(VALUES)).chars().collect(),
            _ => format!("{} {}", rng.pick(DEFS), rng.pick(DEFS)).chars().collect(),
        };
        let k = rng.range(1, 6);
        for _ in 0..k {
            let ch = match rng.below(6) {
                0 => rand_char(&mut rng),
                1 if !c.pool.dict_chars.is_empty() => *rng.pick(&c.pool.dict_chars),
                _ => *rng.pick(&chars),
            };
            let i = rng.below(s.len() + 1);
            match rng.below(6) {
                0 | 1 => s.insert(i, ch),
                2 | 3 if i < s.len() => s[i] = ch,
                4 if i < s.len() => {
                    s.remove(i);
                }
                5 if i < s.len() => {
                    let l = rng.range(1, 8).min(s.len() - i);
                    let part: Vec<char> = s[i..i + l].to_vec();
                    let j = rng.below(s.len() + 1);
                    for (k, x) in part.into_iter().enumerate() {
                        s.insert(j + k, x);
                    }
                }
                _ => s.insert(i, ch),
            }
        }
        let t: String = s.into_iter().collect();
        if attr_arg_nesting(&words(&t)) > 4 {
            continue;
        }
        sink(c, "chars", &t);
    }
}

/// all strings over `alphabet` of length 0..=max, this shard's share
pub fn exhaustive(c: &mut Ctx, alphabet: &[&str], max: usize, mut f: impl FnMut(&mut Ctx, &str)) {
    let k = alphabet.len();
    for len in 0..=max {
        let total = k.pow(len as u32);
        for i in 0..total {
            if i % c.nshards != c.shard {
                continue;
            }
            if i % 4096 < c.nshards && c.stop() {
                return;
            }
            let mut s = String::new();
            let mut x = i;
            for _ in 0..len {
                s.push_str(alphabet[x % k]);
                x /= k;
            }
            f(c, &s);
        }
    }
}

pub const NUM_ALPHABET: &[&str] = &["-", "+", ".", "0", "1", "7", "8", "9", "e", "E", "x", "X", "a", "F", " "];
pub fn w_numbers(c: &mut Ctx, max: usize, sink: Sink) {
    exhaustive(c, NUM_ALPHABET, max, |c, s| {
        let t = format!("interface I{{const long A={};}};", s);
        sink(c, "exhaustive-numbers", &t);
        if s.len() < max {
            let t = format!("dictionary D{{long a={};}};", s);
            sink(c, "exhaustive-numbers", &t);
        }
    });
}
pub const STR_ALPHABET: &[&str] = &["\"", "/", "*", "\n", "a", " ", "\\", "é"];
pub fn w_strings(c: &mut Ctx, max: usize, sink: Sink) {
    exhaustive(c, STR_ALPHABET, max, |c, s| {
        for t in [format!("enum E{{\"{}\"}};", s), format!("enum E{{{}}};", s), format!("dictionary D{{any x={};}};", s), format!("[A=\"{}\"]interface I{{}};", s)] {
            sink(c, "exhaustive-strings", &t);
        }
    });
}
pub const TRIVIA_ALPHABET: &[&str] = &[" ", "\n", "\r", "\t", "/", "*", "x", "\"", "/*", "*/", "//"];
pub fn w_trivia(c: &mut Ctx, max: usize, sink: Sink) {
    exhaustive(c, TRIVIA_ALPHABET, max, |c, s| {
        for t in [
            s.to_string(),
            format!("{}enum E{{\"a\"}};", s),
            format!("enum E{{\"a\"}};{}", s),
            format!("enum{}E{{\"a\"}};", s),
            format!("interface I{{attribute{}long x;}};", s),
            format!("interface I{{{}}};", s),
            format!("typedef long{}? T;", s),
            format!("typedef unsigned long{}long T;", s),
            format!("callback C=undefined({});", s),
            format!("A{}includes B;interface C{}{{}};", s, s),
        ] {
            sink(c, "exhaustive-trivia", &t);
        }
    });
}
pub const NAME_ALPHABET: &[&str] = &["_", "-", "a", "Z", "0", "é", " ", "/**/", "."];
pub fn w_names(c: &mut Ctx, max: usize, sink: Sink) {
    exhaustive(c, NAME_ALPHABET, max, |c, s| {
        for t in [format!("interface {}{{}};", s), format!("typedef long {};", s), format!("interface I{{attribute {} x;}};", s), format!("{} includes B;", s), format!("[{}]enum E{{\"\"}};", s)] {
            sink(c, "exhaustive-names", &t);
        }
    });
}

/// every Unicode character inside strings and comments, and as a stray one between and inside tokens
pub fn w_allchars(c: &mut Ctx, sink: Sink) {
    let all: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).collect();
    for (k, part) in all.chunks(64).enumerate() {
        if !c.mine() {
            continue;
        }
        if c.stop() {
            return;
        }
        let q: Vec<char> = part.iter().copied().filter(|x| *x != '"').collect();
        let vals: Vec<String> = q.iter().enumerate().map(|(i, x)| if i % 2 == 0 { format!("\"a{}b\"", x) } else { format!("\"{}\"", x) }).collect();
        sink(c, "every-char/strings", &format!("enum E {{ {} }};", vals.join(",")));
        let run: String = q.iter().collect();
        sink(c, "every-char/strings", &format!("[A=\"{}\"] interface I {{ undefined f(optional any x = \"{}\"); }};", run, run));
        let line: String = part.iter().filter(|x| **x != '\n').map(|x| format!("// {}\n//{}x\n", x, x)).collect();
        let block: String = part.iter().map(|x| format!("/*{}*//* {}x*/", x, x)).collect();
        if k < 1024 || c.thorough || k % 4 == c.seed as usize % 4 {
            sink(c, "every-char/comments", &format!("typedef{}long{}T;{}", line, block, line));
            // two neighbours of a kind
            let pairs: String = part.iter().filter(|x| **x != '\n').map(|x| format!("//{}{}\n/*{}{}*/", x, x, x, x)).collect();
            sink(c, "every-char/comments", &format!("{}enum E {{ \"{}\" }};", pairs, run));
        }
    }
    let pos = ["typedef long T@;", "typedef long@T;", "@typedef long T;", "typedef long T;@", "interface I{@};", "typedef lon@g T;", "enum E{\"a\"@};", "interface I{const long A=1@;};", "typedef @long T;", "[A@]typedef long T;", "@", "typedef long _@T;"];
    for (k, ch) in all.iter().enumerate() {
        let v = *ch as u32;
        let near = v < 0x3100 || (0xfe00..0x10000).contains(&v);
        if k % 997 == 0 && c.stop() {
            return;
        }
        if !(near || c.thorough || k % 32 == c.seed as usize % 32) || !c.mine() {
            continue;
        }
        for (i, p) in pos.iter().enumerate() {
            if v < 0x400 || c.thorough || (i + k) % 4 == 0 {
                sink(c, "every-char/stray", &p.replace('@', ch.encode_utf8(&mut [0; 4])));
            }
        }
    }
}

/// documents beyond the usual limits of sizes: a few tokens with much in between
pub fn w_large(c: &mut Ctx, sink: Sink) {
    let big = if c.thorough { (1 << 26) + 3 } else { (1 << 24) + 3 };
    let sizes = [(1 << 20) - 20, (1 << 20) + 1, (1 << 21) + 1, (1 << 22) + 1, 10_000_001, big];
    for n in sizes {
        for kind in 0..9 {
            if !c.mine() || c.stop() {
                continue;
            }
            if kind >= 5 && n > 5_000_000 {
                continue;
            }
            let t = match kind {
                0 => format!("typedef long A;/*{}*/typedef short B;", "x".repeat(n)),
                1 => format!("typedef long A;//{}\ntypedef short B;", "x".repeat(n)),
                2 => format!("typedef long A;{}typedef short B;", " ".repeat(n)),
                3 => format!("typedef long A;{}typedef short B;", "//x\n".repeat(n / 4)),
                4 => format!("enum E{{\"{}\",\"b\"}};typedef long A;", "y".repeat(n)),
                5 => format!("typedef long A{};typedef short B;", "a".repeat(n)),
                6 => format!("interface I{{const long A=1{};}};typedef short B;", "0".repeat(n)),
                7 => format!("typedef long A;{}typedef short B;", "/**/\n".repeat(n / 5)),
                _ => format!("interface I{{const double A=.{};}};typedef short B;", "5".repeat(n)),
            };
            sink(c, "large", &t);
        }
    }
}

/// every keyword with every kind of suffix and prefix, in the place of each word of small documents
pub fn w_keywords(c: &mut Ctx, sink: Sink) {
    let suf = ["", "s", "S", "1", "_", "-", "é", ".", "/**/", "\u{0}"];
    let mut docs: Vec<String> = ["interface mixin A { } ;", "partial interface A { } ;", "typedef unsigned long long A ;", "A includes B ;", "interface A { static readonly attribute long x ; } ;", "interface A { async iterable < any > ; } ;", "interface A { getter long f ( optional long y ) ; } ;", "dictionary D { required long x = null ; } ;", "callback interface A { const long B = Infinity ; } ;", "typedef ( A or B ) C ;", "typedef record < DOMString , Promise < undefined > > T ;", "[ A = b ] namespace N { } ;", "interface A { stringifier ; setlike < A > ; constructor ( ) ; } ;", "enum E { \"a\" } ;"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    docs.dedup();
    for d in &docs {
        let t: Vec<String> = words(d);
        for i in 0..t.len() {
            if c.stop() {
                return;
            }
            if !t[i].as_bytes()[0].is_ascii_alphabetic() {
                continue;
            }
            let put = |c: &mut Ctx, w: &str, sink: Sink| {
                if c.mine() {
                    let mut v = t.clone();
                    v[i] = w.to_string();
                    sink(c, "keywords", &v.join(" "));
                }
            };
            for k in KW_TEXTS {
                for s in ["", "s", "_", "-", "0"] {
                    put(c, &format!("{}{}", k, s), sink);
                }
                put(c, &format!("_{}", k), sink);
                put(c, &format!("__{}", k), sink);
            }
            let own = t[i].clone();
            for s in suf {
                put(c, &format!("{}{}", own, s), sink);
                put(c, &format!("{}{}", s, own), sink);
            }
            put(c, &own.to_uppercase(), sink);
            put(c, &own.to_lowercase(), sink);
            for j in 1..own.len() {
                // split and shortened words
                put(c, &format!("{} {}", &own[..j], &own[j..]), sink);
                put(c, &own[..j], sink);
                put(c, &own[j..], sink);
                put(c, &format!("{}_{}", &own[..j], &own[j..]), sink);
                put(c, &format!("{}/**/{}", &own[..j], &own[j..]), sink);
            }
        }
        // words written together
        for i in 0..t.len().saturating_sub(1) {
            if c.mine() {
                let mut v = t.clone();
                let b = v.remove(i + 1);
                v[i].push_str(&b);
                sink(c, "keywords", &v.join(" "));
            }
        }
    }
}

/// texts that cannot continue any element (so that the element must end before them)
pub const FOLLOW: &[&str] = &["", "@", "#x", " @", "é", "\n\t @", "/* c */@", "//c\n@", "@/**/", "\u{0}", "\\"];
/// every public parser on instances of its own rule
pub fn w_entry(c: &mut Ctx, per_entry: usize, mut f: impl FnMut(&mut Ctx, &crate::entries::Entry, &str, &str)) {
    let g = crate::grammar::Grammar::load();
    let mut gen = Gen::new(&g, c.rng("entry"));
    let mut rng = c.rng("entry-style");
    let es = c.entries.clone();
    for round in 0..per_entry {
        let pr = preset(&mut rng, &c.prop);
        apply(&mut gen, pr);
        for e in &es {
            if c.stop() {
                return;
            }
            let few = rng.chance(1, 6);
            let t = gen_tokens(c, &mut gen, g.rule(e.rule), few);
            if t.len() > 400 || attr_arg_nesting(&t) > 3 {
                continue;
            }
            let st = style(&mut rng);
            if let Some(core) = render_checked(&t, st, &mut rng, &c.pool) {
                let fo = FOLLOW[(round + rng.below(FOLLOW.len())) % FOLLOW.len()];
                f(c, e, &core, fo);
            }
        }
    }
}
pub const LIT_ENTRIES: &[&str] = &["DecLit", "HexLit", "OctLit", "FloatValueLit", "IntegerLit", "FloatLit", "StringLit", "ConstValue", "DefaultValue", "Identifier"];

pub fn gen_class_token(c: &Ctx, rng: &mut Rng) -> String {
    let k = *rng.pick(&[Class::Dec, Class::Hex, Class::Oct, Class::Float, Class::Str, Class::Id]);
    c.pool.gen_class(k, rng, true)
}

/// Everything document-shaped, in proportions that suit the property.
pub fn all_docs(c: &mut Ctx, sink: Sink) {
    let t = c.thorough;
    let p = c.prop.clone();
    let k = |quick: usize, thorough: usize| if t { thorough } else { quick };
    w_struct(c, t || matches!(p.as_str(), "C03" | "C05" | "C06"), sink);
    w_corpus(c, k(2, 20), sink);
    w_sized(c, k(if p == "C01" { 1_400_000 } else { 400_000 }, 4_000_000), sink);
    let lits = matches!(p.as_str(), "C04" | "C07" | "C08");
    w_numbers(c, if lits { k(4, 5) } else { 3 }, sink);
    w_strings(c, if lits { k(4, 6) } else { 3 }, sink);
    let tr = matches!(p.as_str(), "C01" | "C07" | "C08" | "C10");
    w_trivia(c, if tr { k(4, 5) } else { 3 }, sink);
    w_names(c, if matches!(p.as_str(), "C11" | "C08" | "C07") { k(4, 5) } else { 3 }, sink);
    w_keywords(c, sink);
    w_allchars(c, sink);
    w_large(c, sink);
    let e = match p.as_str() {
        "C07" | "C08" | "C09" | "C16" | "C04" | "C06" | "C11" => 1,
        _ => 3,
    };
    w_edit(c, if t { 1 } else { e }, sink);
    w_parts(c, if t || e == 1 { 1 } else { 4 }, sink);
    w_neighbours(c, if t || e == 1 { 1 } else { 4 }, sink);
    w_lists(c, k(2_500, 50_000), if e == 1 { 60 } else { 15 }, sink);
    w_many_names(c, k(12_000, 60_000), sink);
    w_random(c, k(8_000, 150_000), sink);
    w_lenient(c, k(3_000, 60_000), sink);
    w_mut(c, k(5_000, 100_000), sink);
    if matches!(p.as_str(), "C07" | "C08" | "C09" | "C16" | "C04" | "C10" | "C11") {
        w_char(c, k(20_000, 500_000), sink);
    }
}

pub fn run(c: &mut Ctx) {
    let p = c.prop.clone();
    if let Some(q) = p.strip_suffix("guided") {
        c.prop = q.to_string();
        return crate::guided::run(c);
    }
    match p.as_str() {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C16" => {
            let mut sink = |c: &mut Ctx, w: &str, t: &str| c.doc(w, t);
            all_docs(c, &mut sink);
            if p != "C08" {
                let n = if c.thorough { 4000 } else { 150 };
                w_entry(c, n, |c, e, core, fo| c.entry("standalone", e, core, fo));
            }
        }
        "C09" => crate::props::c09(c, false),
        "C09light" => {
            c.prop = "C09".into();
            crate::props::c09(c, true)
        }
        "C10" => crate::props::c10(c),
        "C11" => crate::props::c11(c),
        "C12" => crate::props::c12(c),
        "C13" => crate::props::c13(c),
        "C17" => crate::props::c17(c),
        "C15" => crate::c15::c15(c),
        "C14" => crate::c14::c14(c, false),
        "C14hist" => {
            c.prop = "C14".into();
            crate::c14::hist(c)
        }
        "C14age" => {
            c.prop = "C14".into();
            crate::c14::age(c)
        }
        "C14light" => {
            c.prop = "C14".into();
            crate::c14::c14(c, true)
        }
        _ => panic!("unknown property {}", p),
    }
}

pub fn replay(c: &mut Ctx, args: &[String]) -> i32 {
    let kind = crate::ctx::opt(args, "--kind").unwrap_or("doc".into());
    let parts: Vec<String> = args.iter().skip_while(|a| *a != "--parts").skip(1).map(|f| std::fs::read_to_string(f).expect("part")).collect();
    if !crate::props::replay_kind(c, &kind, &parts) {
        return 2;
    }
    for v in &c.rec.violations {
        println!("{}", v.detail);
    }
    println!("{:?}", c.rec.counters);
    if c.rec.violations.is_empty() {
        0
    } else {
        1
    }
}
