//! Coverage-guided workload (instrumented build): documents that make the parser take new paths, take them a new number of
//! times, or bring compared values nearer to each other are kept and changed further. Changes follow the grammar: a part is
//! replaced by another instance of the same rule, list items are repeated, dropped or added, optional parts toggled, names and
//! literals exchanged, trivia edited; now and then tokens are edited blindly. Every text goes to the monitor of the property.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::entries::run_doc;
use crate::grammar::{spans, Gen, Grammar, Part, Span, G};
use crate::lex::{lex, Cls};
use crate::render::{render_checked, Style};
use crate::rng::Rng;
use crate::steps;
use crate::work::*;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

pub struct Item {
    pub toks: Vec<String>,
    pub spans: Vec<Span>,
    pub text: String,
}
/// what a monitor gets to see: the tokens, their parts, the text, and another kept text
pub struct Case<'x> {
    pub toks: &'x [String],
    pub text: &'x str,
    pub out: crate::entries::Out<'x>,
    pub other: &'x Item,
    /// the kept text this one was made from
    pub parent: Option<&'x Item>,
    pub rng: &'x mut Rng,
}

fn sizes_up_to(c: &Ctx, rng: &mut Rng, max: usize) -> usize {
    match rng.below(4) {
        0 | 1 => rng.range(1, 4),
        2 => rng.range(1, 40),
        _ => {
            let v = c.pool.sizes(max.max(2));
            v[rng.below(v.len())].max(1)
        }
    }
    .min(max.max(1))
}

struct Mut<'g> {
    g: &'g Grammar,
    parts: HashMap<usize, &'g G>,
    gen: Gen<'g>,
}
impl<'g> Mut<'g> {
    fn splice(t: &mut Vec<String>, a: usize, b: usize, with: Vec<String>) {
        t.splice(a..b, with);
    }
    /// one change that keeps the text inside the grammar as a rule
    fn change(&mut self, c: &Ctx, t: &mut Vec<String>, sp: &[Span], corpus: &[Item], rng: &mut Rng, room: usize) {
        if sp.is_empty() || t.is_empty() {
            t.push(c.pool.any_token(rng));
            return;
        }
        let k = rng.below(21);
        let s = sp[rng.below(sp.len())];
        match k {
            0..=2 => {
                // another instance of the same rule, made up
                if let (Part::Rule(r), a, b) = s {
                    self.gen.max_depth = *rng.pick(&[6, 10, 14, 18]);
                    let x = self.gen.generate(r, &c.pool);
                    if x.len() < 200 {
                        Self::splice(t, a, b, x);
                    }
                    return;
                }
            }
            3..=5 => {
                // another instance of the same rule or list, from a kept text (or this one)
                for _ in 0..8 {
                    let o = &corpus[rng.below(corpus.len())];
                    let same: Vec<&Span> = o.spans.iter().filter(|x| x.0 == s.0 && x.2 - x.1 < 200).collect();
                    if !same.is_empty() {
                        let x = same[rng.below(same.len())];
                        let v = o.toks[x.1..x.2].to_vec();
                        Self::splice(t, s.1, s.2, v);
                        return;
                    }
                }
            }
            6..=9 => {
                // list items
                let items: Vec<&Span> = sp.iter().filter(|x| matches!(x.0, Part::Item(_))).collect();
                if !items.is_empty() {
                    let x = items[rng.below(items.len())];
                    let Part::Item(id) = x.0 else { return };
                    let sep = match self.parts.get(&id) {
                        Some(G::List { sep, .. }) => Some(sep.to_string()),
                        _ => None,
                    };
                    let unit = t[x.1..x.2].to_vec();
                    let max = (room.saturating_sub(t.len())) / (unit.len() + 1);
                    match rng.below(6) {
                        0 | 1 => {
                            // again, one or many times
                            let n = sizes_up_to(c, rng, max);
                            let mut v = Vec::new();
                            for _ in 0..n {
                                if let Some(s) = &sep {
                                    v.push(s.clone());
                                }
                                v.extend(unit.iter().cloned());
                            }
                            Self::splice(t, x.2, x.2, v);
                        }
                        2 | 3 => {
                            // a new neighbour
                            if let Some(G::List { body, .. } | G::Rep(_, body)) = self.parts.get(&id).copied() {
                                self.gen.max_depth = *rng.pick(&[8, 12, 16]);
                                let mut v = self.gen.generate_body(body, 3, &c.pool);
                                if v.len() > 200 {
                                    return;
                                }
                                if rng.chance(1, 2) {
                                    if let Some(s) = &sep {
                                        v.push(s.clone());
                                    }
                                    Self::splice(t, x.1, x.1, v);
                                } else {
                                    if let Some(s) = &sep {
                                        v.insert(0, s.clone());
                                    }
                                    Self::splice(t, x.2, x.2, v);
                                }
                            }
                        }
                        4 => {
                            // without it
                            let (mut a, mut b) = (x.1, x.2);
                            if let Some(s) = &sep {
                                if t.get(b) == Some(s) {
                                    b += 1;
                                } else if a > 0 && &t[a - 1] == s {
                                    a -= 1;
                                }
                            }
                            t.drain(a..b);
                        }
                        _ => {
                            // exchanged with another item of the same kind
                            let same: Vec<&&Span> = items.iter().filter(|y| y.0 == x.0 && (y.1 >= x.2 || y.2 <= x.1)).collect();
                            if !same.is_empty() {
                                let y = same[rng.below(same.len())];
                                let (p, q) = if x.1 < y.1 { (x, *y) } else { (*y, x) };
                                let (u, w) = (t[p.1..p.2].to_vec(), t[q.1..q.2].to_vec());
                                Self::splice(t, q.1, q.2, u);
                                Self::splice(t, p.1, p.2, w);
                            }
                        }
                    }
                    return;
                }
            }
            10..=12 => {
                // optional parts
                let o: Vec<&Span> = sp.iter().filter(|x| matches!(x.0, Part::Opt(_) | Part::Null(_))).collect();
                if !o.is_empty() {
                    let x = o[rng.below(o.len())];
                    if x.2 > x.1 {
                        t.drain(x.1..x.2);
                    } else {
                        let v = match x.0 {
                            Part::Null(_) => vec!["?".to_string()],
                            Part::Opt(id) => match self.parts.get(&id).copied() {
                                Some(G::Opt { body, .. }) => {
                                    self.gen.max_depth = *rng.pick(&[8, 12, 16]);
                                    self.gen.generate_body(body, 3, &c.pool)
                                }
                                _ => vec![],
                            },
                            _ => vec![],
                        };
                        if v.len() < 200 {
                            Self::splice(t, x.1, x.1, v);
                        }
                    }
                    return;
                }
            }
            13..=16 => {
                // names and literals
                let cand: Vec<usize> = (0..t.len()).filter(|i| !crate::grammar::is_kw(&t[*i]) && lex(&t[*i]).first().map_or(false, |l| !matches!(l.cls, Cls::Punct | Cls::Junk))).collect();
                if !cand.is_empty() {
                    let i = cand[rng.below(cand.len())];
                    let cls = lex(&t[i])[0].cls;
                    let same: Vec<usize> = cand.iter().copied().filter(|j| lex(&t[*j])[0].cls == cls && t[*j] != t[i]).collect();
                    match (cls, rng.below(5)) {
                        (_, 0) if !same.is_empty() => t[i] = t[same[rng.below(same.len())]].clone(),
                        (Cls::Word, 1) => t[i] = related(&t[i].clone(), rng),
                        (Cls::Word, 2) => {
                            let n = sizes_up_to(c, rng, 300);
                            let x = "aZ0_-q".chars().nth(rng.below(6)).unwrap();
                            t[i].push_str(&x.to_string().repeat(n));
                        }
                        (Cls::Word, _) => t[i] = c.pool.name(rng, true),
                        (Cls::Str, 1 | 2) => {
                            let n = sizes_up_to(c, rng, 300);
                            let add = format!("{}{}", c.pool.string_content(rng, true), "x".repeat(n));
                            t[i] = format!("\"{}{}\"", &t[i][1..t[i].len() - 1], add);
                        }
                        (Cls::Str, _) => t[i] = format!("\"{}\"", c.pool.string_content(rng, true)),
                        (_, 1) => {
                            let n = sizes_up_to(c, rng, 100);
                            t[i].push_str(&rng.pick(&["0", "7", "1"]).repeat(n));
                        }
                        _ => {
                            use crate::grammar::Class;
                            let k = *rng.pick(&[Class::Dec, Class::Hex, Class::Oct, Class::Float]);
                            t[i] = c.pool.gen_class(k, rng, true);
                        }
                    }
                    return;
                }
            }
            17 => {
                // a whole part into itself (deeper nesting)
                if let (Part::Rule(r), a, b) = s {
                    let inside: Vec<&Span> = sp.iter().filter(|x| x.0 == Part::Rule(r) && x.1 >= a && x.2 <= b && x.2 - x.1 < b - a).collect();
                    if !inside.is_empty() {
                        let x = inside[rng.below(inside.len())];
                        let whole = t[a..b].to_vec();
                        let n = sizes_up_to(c, rng, (room.saturating_sub(t.len()) / whole.len().max(1)).min(60));
                        let (pre, post) = (t[a..x.1].to_vec(), t[x.2..b].to_vec());
                        let mut v = Vec::new();
                        for _ in 0..n {
                            v.extend(pre.iter().cloned());
                        }
                        v.extend(whole);
                        for _ in 0..n {
                            v.extend(post.iter().cloned());
                        }
                        Self::splice(t, a, b, v);
                    }
                    return;
                }
            }
            20 => {
                // a part twice, or in another place (mostly leaves the grammar)
                let v = t[s.1..s.2].to_vec();
                if v.is_empty() || v.len() > 60 {
                    return;
                }
                if rng.chance(1, 2) {
                    Self::splice(t, s.2, s.2, v);
                } else {
                    let to = sp[rng.below(sp.len())].1;
                    if to <= s.1 {
                        t.drain(s.1..s.2);
                        Self::splice(t, to, to, v);
                    } else if to >= s.2 {
                        Self::splice(t, to, to, v);
                        t.drain(s.1..s.2);
                    }
                }
                return;
            }
            _ => {}
        }
        if rng.chance(1, 2) {
            mutate(t, &corpus[rng.below(corpus.len())].toks, c, rng);
        }
    }
}

pub fn guided(c: &mut Ctx, quick: usize, thorough: usize, judge: &mut dyn FnMut(&mut Ctx, Case)) -> Vec<Item> {
    guided_(c, false, quick, thorough, judge)
}
/// rather a short one
fn pick(v: &[Item], rng: &mut Rng) -> usize {
    (0..3).map(|_| rng.below(v.len())).min_by_key(|i| v[*i].toks.len()).unwrap()
}
fn guided_(c: &mut Ctx, texts_only: bool, quick: usize, thorough: usize, judge: &mut dyn FnMut(&mut Ctx, Case)) -> Vec<Item> {
    if steps::COUNTERS_N.load(Relaxed) == 0 {
        c.rec.count("SELFTEST-FAILED", 1);
        c.rec.notes.push("guided workload in a build without instrumentation".into());
        return Vec::new();
    }
    let g = Grammar::load();
    let defs = g.rule("Definitions");
    let mut rng = c.rng("guided-tree");
    let mut m = Mut { g: &g, parts: g.parts(), gen: Gen::new(&g, c.rng("guided-gen")) };
    let _ = m.g;
    let mut corpus: Vec<Item> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut feats: Vec<u64> = Vec::new();
    let mut seeds: Vec<Vec<String>> = vec![words("")];
    seeds.extend(DEFS.iter().map(|d| words(d)));
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        seeds.extend(ms.iter().map(|x| words(&format!("{} {{ {} }} ;", pre, x))));
    }
    for i in 0..150 {
        seeds.push(match i % 4 {
            0 => words(&rng.pick(TYPE_POS).replace('@', rng.pick(BASE_TYPES))),
            1 => words(&rng.pick(ARG_POS).replace('@', rng.pick(ARG_FORMS))),
            2 => words(&rng.pick(ATTR_POS).replace('@', &format!("[ {} ]", rng.pick(ATTR_FORMS)))),
            _ => {
                let p = preset(&mut rng, &c.prop);
                apply(&mut m.gen, p);
                m.gen.max_depth = m.gen.max_depth.min(16);
                gen_tokens(c, &mut m.gen, defs, rng.chance(1, 5))
            }
        });
    }
    m.gen.list_max = 2;
    m.gen.opt_p = 40;
    m.gen.attr_p = 15;
    let n = if c.thorough { thorough } else { quick };
    let t0 = Instant::now();
    let limit = if texts_only { if c.thorough { 60.0 } else { 9.0 } } else if c.thorough { 400.0 } else { 25.0 };
    let mut fresh: Vec<usize> = Vec::new();
    let values = c.prop == "C17";
    for round in 0..seeds.len() + n {
        if c.stop() || t0.elapsed().as_secs_f64() > limit {
            c.rec.count("guided-cut-short", 1);
            break;
        }
        let mut trivia_only = None;
        let mut parent = None;
        let toks: Vec<String> = if round < seeds.len() {
            std::mem::take(&mut seeds[round])
        } else {
            let i = if rng.chance(1, 2) && !fresh.is_empty() { (0..2).map(|_| fresh[fresh.len() - 1 - rng.below(fresh.len().min(100))]).min_by_key(|i| corpus[*i].toks.len()).unwrap() } else { pick(&corpus, &mut rng) };
            parent = Some(i);
            let mut t = corpus[i].toks.clone();
            if rng.chance(1, 7) {
                // the same tokens, the trivia edited
                let mut s = corpus[i].text.clone();
                let l: Vec<(usize, usize)> = lex(&s).iter().map(|x| (x.off, x.off + x.text.len())).collect();
                for _ in 0..rng.range(1, 3) {
                    let at = if l.is_empty() || rng.chance(1, 6) {
                        if rng.chance(1, 2) { 0 } else { s.len() }
                    } else {
                        let x = l[rng.below(l.len())];
                        if rng.chance(1, 2) { x.0 } else { x.1 }
                    };
                    if at > s.len() || !s.is_char_boundary(at) {
                        continue;
                    }
                    let ins = if rng.chance(1, 8) {
                        let n = sizes_up_to(c, &mut rng, 3000);
                        rng.pick(&[" ", "\n", "\t", "\r", "/**/", "//x\n", "/*x*/"]).repeat(n)
                    } else if rng.chance(1, 6) {
                        let n = sizes_up_to(c, &mut rng, 3000);
                        let b = rng.pick(&["x", "*", "é", "\n", "/", " "]).repeat(n);
                        format!("/*{}*/", b)
                    } else {
                        c.pool.trivia(&mut rng, false)
                    };
                    s.insert_str(at, &ins);
                    break;
                }
                let same = {
                    let l = lex(&s);
                    l.len() == t.len() && l.iter().zip(&t).all(|(a, b)| a.text == b)
                };
                if same {
                    trivia_only = Some(s);
                }
            }
            if trivia_only.is_none() {
                let room = if rng.chance(1, 20) { 3000 } else { 160 };
                let mut sp = corpus[i].spans.clone();
                for k in 0..*rng.pick(&[1, 1, 1, 2, 3]) {
                    if k > 0 {
                        if attr_arg_nesting(&t) > 3 {
                            break;
                        }
                        let s = t.join(" ");
                        sp = spans(&g, defs, &lex(&s)).unwrap_or_default();
                    }
                    m.change(c, &mut t, &sp, &corpus, &mut rng, room);
                }
                if t.len() > room + 100 {
                    continue;
                }
            }
            t
        };
        if attr_arg_nesting(&toks) > 3 {
            continue;
        }
        let text = match trivia_only {
            Some(s) => s,
            None => {
                let st = match rng.below(5) {
                    0 => Style::Minimal,
                    1 => Style::Random,
                    _ => Style::Spaced,
                };
                match render_checked(&toks, st, &mut rng, &c.pool) {
                    Some(s) => s,
                    None => continue,
                }
            }
        };
        c.crumb("doc", &[&text]);
        steps::guide_on();
        let out = run_doc(&text);
        let ok = out.is_ok();
        if corpus.is_empty() {
            corpus.push(Item { toks: vec![], spans: vec![], text: String::new() });
        }
        let o = rng.below(corpus.len());
        let mut r2 = Rng::new(rng.next());
        let mut case = Some(Case { toks: &toks, text: &text, out, other: &corpus[o], parent: parent.map(|i| &corpus[i]), rng: &mut r2 });
        if values {
            // comparing, hashing and printing guide the search too
            judge(c, case.take().unwrap());
        }
        steps::features(&mut feats);
        let mut new = 0;
        for f in &feats {
            if seen.insert(*f) {
                new += 1;
            }
        }
        if let Some(k) = case {
            judge(c, k);
        }
        if new > 0 || round < 1 {
            let sp = {
                let s = toks.join(" ");
                spans(&g, defs, &lex(&s)).unwrap_or_default()
            };
            if ok || rng.chance(1, 3) {
                if toks.len() < 500 || fresh.len() % 4 == 0 {
                    fresh.push(corpus.len());
                }
                corpus.push(Item { toks, spans: sp, text });
            }
        }
    }
    c.rec.count("guided-kept", corpus.len() as u64);
    c.rec.max("guided-edges-and-comparisons", seen.len() as u64);
    corpus
}

/// the guided workload of a property
pub fn run(c: &mut Ctx) {
    let p = c.prop.clone();
    match p.as_str() {
        "C10" => {
            guided(c, 60_000, 1_500_000, &mut |c, k| {
                let plain = k.toks.join(" ");
                crate::props::trivia_pair(c, "guided", &plain, k.text);
            });
        }
        "C12" => {
            let es = c.entries.clone();
            let mut by: HashMap<usize, Vec<crate::entries::Entry>> = HashMap::new();
            for e in es {
                by.entry(c.g.rule(e.rule)).or_default().push(e);
            }
            let g = Grammar::load();
            let defs = g.rule("Definitions");
            guided(c, 60_000, 1_500_000, &mut |c, k| {
                let s = k.toks.join(" ");
                let sp = match spans(&g, defs, &lex(&s)) {
                    Some(x) if !x.is_empty() && k.toks.len() < 200 => x,
                    _ => return,
                };
                for _ in 0..2 {
                    let x = sp[k.rng.below(sp.len())];
                    if let (Part::Rule(r), a, b) = x {
                        if let (Some(v), true) = (by.get(&r), b > a) {
                            let e = *k.rng.pick(v);
                            let core = k.toks[a..b].join(" ");
                            let follow = k.toks[b..].join(" ");
                            crate::props::follow_one(c, "guided", &e, &core, &follow);
                            crate::props::any_one(c, "guided", &e, &k.toks[a..].join(" "));
                        }
                    }
                }
            });
        }
        "C17" => {
            let es = c.entries.clone();
            let whole = *es.iter().find(|e| e.rule == "Definitions").expect("entry");
            let mut by: HashMap<usize, Vec<crate::entries::Entry>> = HashMap::new();
            for e in es {
                by.entry(c.g.rule(e.rule)).or_default().push(e);
            }
            guided(c, 60_000, 1_500_000, &mut |c, k| {
                if k.toks.len() > 150 || !k.out.is_ok() {
                    return;
                }
                let Some(p) = k.parent.filter(|p| p.toks.len() < 150) else { return };
                // a text, what it was made from, and its tokens written differently
                let plain = k.toks.join(" ");
                crate::props::laws_texts(c, &whole, &[k.text.to_string(), p.text.clone(), plain], "guided");
                // two instances of one rule, the second from a kept text
                if k.rng.chance(1, 2) && !p.spans.is_empty() {
                    let x = p.spans[k.rng.below(p.spans.len())];
                    let same: Vec<&Span> = k.other.spans.iter().filter(|y| y.0 == x.0).collect();
                    if let (Part::Rule(r), a, b) = x {
                        if let (Some(v), true, false) = (by.get(&r), b > a, same.is_empty()) {
                            let e = *k.rng.pick(v);
                            let y = same[k.rng.below(same.len())];
                            let near = p.spans.iter().filter(|y| y.0 == x.0 && y.1 != x.1).map(|y| p.toks[y.1..y.2].join(" ")).next().unwrap_or_default();
                            crate::props::laws_texts(c, &e, &[p.toks[a..b].join(" "), k.other.toks[y.1..y.2].join(" "), near], "guided");
                        }
                    }
                }
            });
        }
        "C13" => {
            guided(c, 40_000, 1_000_000, &mut |c, k| {
                let o = k.other.text.clone();
                match k.rng.below(3) {
                    0 => crate::props::concat_one(c, "guided", &[k.text, &o]),
                    1 => crate::props::concat_one(c, "guided", &[&o, k.text]),
                    _ => crate::props::concat_one(c, "guided", &[k.text, k.text]),
                }
                crate::props::refused_one(c, "guided", &o, k.text);
                if k.toks.len() < 150 {
                    let names: Vec<&String> = k.toks.iter().filter(|t| crate::pool::is_name(t) && !crate::grammar::is_kw(t)).collect();
                    if !names.is_empty() {
                        let from = crate::lex::unescape(names[k.rng.below(names.len())]).to_string();
                        let to = if k.rng.chance(1, 2) { related(&from, k.rng) } else { c.pool.name(k.rng, true) };
                        let to = crate::lex::unescape(&to).to_string();
                        if !crate::grammar::is_kw(&to) && !crate::grammar::is_kw(&from) && crate::pool::is_name(&to) && !to.starts_with('_') {
                            crate::props::rename_one(c, "guided", k.text, &from, &to);
                        }
                    }
                }
            });
        }
        _ => {
            guided(c, 70_000, 2_000_000, &mut |c, k| c.doc_out("guided", k.text, k.out));
        }
    }
}
/// the kept texts, for workloads of other properties
pub fn write(c: &mut Ctx, file: &str) {
    let v = guided_(c, true, 60_000, 400_000, &mut |_, _| {});
    let t: Vec<&str> = v.iter().map(|x| x.text.as_str()).filter(|x| !x.contains('\u{1}')).collect();
    std::fs::write(file, t.join("\u{1}")).expect("write");
}
