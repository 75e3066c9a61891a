//! C15: work, memory and stack against the length of the text.
//! Work is counted in executed edges of the parser and the parser library below it (instrumented build), memory in bytes
//! requested from the allocator while the parser runs, stack as the lowest address seen at any edge. All three are
//! deterministic, so growth is judged on differences between sizes, not on time. Processor time is only a screen for work
//! in code that is not instrumented; what it finds suspicious the driver settles by counting instructions.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::entries::guarded;
use crate::grammar::{Gen, Grammar};
use crate::rng::Rng;
use crate::sized::*;
use crate::steps;
use crate::work::*;

#[derive(Clone, Copy, Debug)]
pub struct M {
    pub bytes: u64,
    pub steps: u64,
    pub alloc: u64,
    pub stack: u64,
    pub ok: bool,
}
#[inline(never)]
pub fn measure(text: &str, budget: u64) -> M {
    let here = 0usize;
    steps::reset(budget);
    let r = guarded(|| weedle::parse(text).is_ok());
    let (s, a, lo) = (steps::steps(), steps::alloc_bytes(), steps::stack_lo());
    steps::reset(u64::MAX);
    let base = &here as *const usize as usize;
    M { bytes: text.len() as u64, steps: s, alloc: a, stack: if lo == usize::MAX { 0 } else { base.saturating_sub(lo) as u64 }, ok: matches!(r, Ok(true)) }
}
pub fn budget(text: &str) -> u64 {
    100_000_000 + 40_000 * text.len() as u64
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Ts) -> i32;
}
fn cpu() -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}
fn time(text: &str) -> f64 {
    let mut best = f64::MAX;
    for _ in 0..3 {
        let t = cpu();
        let _ = guarded(|| weedle::parse(text).is_ok());
        best = best.min(cpu() - t);
    }
    best
}

/// does the added cost per added byte rise from one doubling to the next?
fn rises(a: (u64, u64), b: (u64, u64), d: (u64, u64), factor: f64, slack: f64) -> Option<f64> {
    let (b1, b2) = ((b.0 - a.0) as f64, (d.0 - b.0) as f64);
    if b1 <= 0.0 || b2 <= 0.0 {
        return None;
    }
    let d1 = (b.1 as f64 - a.1 as f64).max(0.0);
    let d2 = d.1 as f64 - b.1 as f64;
    let allowed = factor * d1 / b1 * b2 + slack;
    if d2 > allowed {
        Some(d2 / b2 / (d1 / b1).max(1e-9))
    } else {
        None
    }
}
pub fn judge(ms: &[M], flat: bool) -> Option<String> {
    let line = |f: &dyn Fn(&M) -> u64| ms.iter().map(|m| format!("{}B:{}", m.bytes, f(m))).collect::<Vec<_>>().join(" ");
    for w in ms.windows(3) {
        if let Some(r) = rises((w[0].bytes, w[0].steps), (w[1].bytes, w[1].steps), (w[2].bytes, w[2].steps), 1.15, 4000.0) {
            return Some(format!("work per added byte rises {:.2} times from one doubling to the next (steps: {})", r, line(&|m| m.steps)));
        }
        if let Some(r) = rises((w[0].bytes, w[0].alloc), (w[1].bytes, w[1].alloc), (w[2].bytes, w[2].alloc), 1.6, 40_000.0) {
            return Some(format!("memory per added byte rises {:.2} times from one doubling to the next (bytes allocated: {})", r, line(&|m| m.alloc)));
        }
    }
    if flat {
        let (a, b) = (ms[0].stack, ms[ms.len() - 1].stack);
        if b > a + 4096 + (ms[ms.len() - 1].bytes - ms[0].bytes) / 100 {
            return Some(format!("stack use grows with the length of a flat text (stack: {})", line(&|m| m.stack)));
        }
    }
    None
}
/// the families of the catalogue that nest are the ones with small limits
pub fn nests(max: usize) -> bool {
    max < 10_000
}

pub fn sizes_for(f: fn(usize) -> String, max: usize, bytes: usize) -> Vec<usize> {
    let unit = ((f(96).len() as f64 - f(32).len() as f64) / 64.0).max(0.05);
    let mut n = ((bytes as f64 / unit) as usize).min(max);
    n -= n % 8;
    let n = n.max(64);
    vec![n / 8, n / 4, n / 2, n]
}
pub fn family(c: &mut Ctx, name: &'static str, f: fn(usize) -> String, max: usize, bytes: usize) {
    // texts that take many steps per byte are measured at smaller sizes
    let small = sizes_for(f, max, bytes.min(4_000));
    let t = f(small[3]);
    c.crumb("growth", &[name, &small[3].to_string(), &t]);
    let m = measure(&t, budget(&t));
    let per = (m.steps / m.bytes.max(1)).max(1);
    let cap = if c.thorough { 1_000_000_000 } else { 60_000_000 };
    let bytes = bytes.min((cap / per) as usize).max(8_000);
    let sizes = sizes_for(f, max, bytes);
    let mut ms: Vec<M> = Vec::new();
    for n in &sizes {
        let t = f(*n);
        c.crumb("growth", &[name, &n.to_string(), &t]);
        let m = measure(&t, budget(&t));
        c.rec.evaluations += 1;
        c.rec.events += m.steps;
        ms.push(m);
    }
    let last = ms[ms.len() - 1];
    c.observed(if name.starts_with("x-") { "hostile-families" } else { "families" }, if last.ok { "accepted" } else { "refused" }, name, 0, true);
    c.rec.max("largest-text-bytes", last.bytes);
    c.rec.max("steps-per-byte-max", last.steps / last.bytes.max(1));
    c.rec.max("deepest-stack-flat-bytes", if nests(max) { 0 } else { last.stack });
    if let Some(d) = judge(&ms, !nests(max)) {
        c.rec.violation("families", "growth", &[name, &sizes[3].to_string(), &f(sizes[3].min(400))], &format!("{}: {}", name, d));
        return;
    }
    // processor time as a screen for work outside the instrumented code
    let (small, large) = (f(sizes[1]), f(sizes[3]));
    let (ts, tl) = (time(&small), time(&large));
    let ratio = (tl / large.len() as f64) / (ts.max(1e-7) / small.len() as f64);
    c.rec.max("time-per-byte-ratio-max-x100", (ratio * 100.0) as u64);
    if tl > 0.000_5 && ratio > 1.4 {
        c.rec.count("time-suspects", 1);
        c.rec.notes.push(format!("SUSPECT family {} {} {} {}", name, sizes[1], sizes[2], sizes[3]));
    }
}

/// repeat (or nest) a piece of a text
fn pump(t: &[String], i: usize, j: usize, nest: Option<(usize, usize)>, k: usize) -> String {
    let mut v: Vec<String> = Vec::new();
    let s = |a: usize, b: usize, v: &mut Vec<String>, times: usize| {
        for r in 0..times {
            for x in &t[a..b] {
                // a token marked so differs from one repetition to the next
                v.push(if x.contains('\u{2}') { x.replace('\u{2}', &format!("{:05}", r)) } else { x.clone() });
            }
        }
    };
    s(0, i, &mut v, 1);
    s(i, j, &mut v, k);
    match nest {
        None => s(j, t.len(), &mut v, 1),
        Some((a, b)) => {
            s(j, a, &mut v, 1);
            s(a, b, &mut v, k);
            s(b, t.len(), &mut v, 1);
        }
    }
    v.join(" ")
}
/// what strings and comments may hold and the surrounding code must not count
const TRAPS: &[&str] = &["[", "]", "(", ")", "{", "}", "<", ">", ";", ",", "/*", "//", "*/", "/* /*", "[[[", "(((", "{{{", "<<<", "]]]", "*", "/", "?", "=", "'", "\\", "\n", "\r", "#", "é", "interface I {", "[A(", "=\\", "\u{0}", "."];
fn trapped(rng: &mut Rng, comment: bool) -> String {
    let mut x = rng.pick(TRAPS).to_string();
    if rng.chance(1, 4) {
        x.push_str(rng.pick(TRAPS));
    }
    if comment {
        if rng.chance(1, 6) {
            x.push('"');
        }
        if rng.chance(1, 2) {
            format!("//{}\n", x.replace('\n', " "))
        } else {
            format!("/*{}*/", x.replace("*/", "* /").replace("/*/", "/* /"))
        }
    } else {
        format!("\"{}\"", x)
    }
}
/// strings and comments inside that hold what looks like structure; names that differ between repetitions
fn disguise(t: &mut Vec<String>, rng: &mut Rng) {
    for x in t.iter_mut() {
        if x.starts_with('"') && rng.chance(1, 2) {
            *x = trapped(rng, false);
        }
    }
    if rng.chance(1, 3) {
        let i = rng.below(t.len() + 1);
        t.insert(i, trapped(rng, true));
    }
    if rng.chance(1, 3) {
        for x in t.iter_mut() {
            let name = x.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && !crate::dump::KW_TEXTS.contains(&x.as_str());
            if name && rng.chance(2, 3) {
                x.push('\u{2}');
            } else if x.len() > 1 && x.starts_with('"') && rng.chance(1, 2) {
                x.insert(1, '\u{2}');
            }
        }
    }
}
/// every place an attribute list, a type, an argument or a member can stand, with each trap in a string or comment there
fn traps(c: &mut Ctx) {
    let mut rng = c.rng("traps");
    let mut units: Vec<Vec<String>> = Vec::new();
    for trap in TRAPS {
        let s = format!("\"{}\"", trap);
        let cm = format!("/*{}*/", trap.replace("*/", "* /"));
        for p in ATTR_POS {
            let mut t = words(&p.replace('@', "[ A = \"\" ]"));
            for x in t.iter_mut() {
                if x == "\"\"" {
                    *x = s.clone();
                }
            }
            units.push(t);
        }
        for p in DEFS.iter().map(|d| d.to_string()).chain(IF_MEMBERS.iter().map(|m| format!("interface I {{ {} }} ;", m))) {
            let mut t = words(&p);
            let i = rng.below(t.len() + 1);
            t.insert(i, cm.clone());
            for x in t.iter_mut() {
                if x.starts_with('"') {
                    *x = s.clone();
                }
            }
            units.push(t);
        }
    }
    for mut t in units {
        if c.stop() {
            return;
        }
        if !c.mine() {
            continue;
        }
        if rng.chance(1, 3) {
            disguise(&mut t, &mut rng);
        }
        // the whole, or what stands between the outer braces
        let inner = match (t.iter().position(|x| x == "{"), t.iter().rposition(|x| x == "}")) {
            (Some(a), Some(b)) if a + 1 < b && rng.chance(1, 2) => (a + 1, b),
            _ => (0, t.len()),
        };
        measured_pump(c, "traps", &t, inner.0, inner.1, None);
    }
}
pub fn judge_pump(text_at: &dyn Fn(usize) -> String, flat: bool) -> (Option<String>, [M; 3]) {
    let mut ms = Vec::new();
    for k in [32usize, 64, 128] {
        let t = text_at(k);
        ms.push(measure(&t, budget(&t)));
    }
    let mut d = judge(&ms, flat);
    if d.is_some() {
        // the first repetitions can still differ in what they reach: look further out before calling it growth
        let mut big = Vec::new();
        for k in [128usize, 256, 512, 1024] {
            let t = text_at(k);
            big.push(measure(&t, budget(&t)));
        }
        d = judge(&big, flat);
    }
    (d, [ms[0], ms[1], ms[2]])
}
fn pumps(c: &mut Ctx, n: usize) {
    let g = Grammar::load();
    let defs = g.rule("Definitions");
    let mut gen = Gen::new(&g, c.rng("pump"));
    let mut rng = c.rng("pump-choice");
    for round in 0..n {
        if c.stop() {
            return;
        }
        if round % 20 == 0 {
            let mut p = preset(&mut rng, "C15");
            p.depth = p.depth.min(16);
            apply(&mut gen, p);
        }
        let t: Vec<String> = match rng.below(if c.kept.is_empty() { 6 } else { 9 }) {
            6.. => crate::lex::lex(&c.kept[rng.below(c.kept.len())]).iter().map(|t| t.text.to_string()).collect(),
            0 => words(*rng.pick(DEFS)),
            1 => words(&format!("interface I {{ {} }} ;", rng.pick(IF_MEMBERS))),
            2 => words(&rng.pick(TYPE_POS).replace('@', rng.pick(BASE_TYPES))),
            3 => words(&rng.pick(ARG_POS).replace('@', rng.pick(ARG_FORMS))),
            4 => words(&rng.pick(ATTR_POS).replace('@', &format!("[ {} ]", rng.pick(ATTR_FORMS)))),
            _ => gen_tokens(c, &mut gen, defs, false),
        };
        if t.len() < 2 || t.len() > 120 {
            continue;
        }
        let mut t = t;
        if rng.chance(1, 4) {
            // a comment or a stray token among them
            let i = rng.below(t.len() + 1);
            let x = match rng.below(4) {
                0 => "/* c */".to_string(),
                1 => "// c\n".to_string(),
                2 => "/*".to_string(),
                _ => c.pool.any_token(&mut rng),
            };
            t.insert(i, x);
        }
        if rng.chance(1, 2) {
            disguise(&mut t, &mut rng);
        }
        one_pump(c, &t, &mut rng);
    }
}
fn one_pump(c: &mut Ctx, t: &[String], rng: &mut Rng) {
    let defs = c.g.rule("Definitions");
    let prefer = rng.chance(2, 3);
    let mut choice = None;
    for _ in 0..40 {
        let i = rng.below(t.len());
        let span = if rng.chance(1, 4) { t.len() } else { 8 };
        let j = (i + 1 + rng.below(span)).min(t.len());
        let nest = if rng.chance(1, 2) && j < t.len() {
            let a = j + rng.below(t.len() - j);
            let b = (a + 1 + rng.below(4)).min(t.len());
            Some((a, b))
        } else {
            None
        };
        choice = Some((i, j, nest));
        // mostly pieces whose repetition stays a valid text
        if !prefer || (t.len() < 80 && crate::grammar::strict_parse(&c.g, defs, &crate::lex::lex(&pump(t, i, j, nest, 3))).is_some()) {
            break;
        }
    }
    let (i, j, nest) = choice.unwrap();
    measured_pump(c, "pumps", t, i, j, nest);
}
/// brackets, of one kind or of any, opened and not closed on some stretch of the text
fn depth(text: &str) -> usize {
    let l = crate::lex::lex(text);
    let rise = |kinds: &[(&str, &str)]| {
        let (mut d, mut top) = (0usize, 0usize);
        for t in &l {
            if kinds.iter().any(|k| k.0 == t.text) {
                d += 1;
                top = top.max(d);
            } else if kinds.iter().any(|k| k.1 == t.text) {
                d = d.saturating_sub(1);
            }
        }
        top
    };
    let ks = [("(", ")"), ("[", "]"), ("<", ">"), ("{", "}")];
    ks.iter().map(|k| rise(&[*k])).chain([rise(&ks)]).max().unwrap()
}
/// more repetitions mean deeper nesting
fn deepens(at: &dyn Fn(usize) -> String) -> bool {
    depth(&at(64)) > depth(&at(32))
}
fn measured_pump(c: &mut Ctx, w: &str, t: &[String], i: usize, j: usize, nest: Option<(usize, usize)>) {
    let at = |k: usize| pump(t, i, j, nest, k);
    let probe = at(32);
    let ws = words(&probe);
    if attr_arg_nesting(&ws) > 2 {
        c.rec.count("pumps/skipped-known-finding", 1);
        return;
    }
    let open = deepens(&at);
    let big = at(128);
    c.crumb("pump", &[&at(1), &at(2), &big]);
    let (d, ms) = judge_pump(&at, !open);
    let tag = if ms[2].ok { "accepted" } else if nest.is_some() { "refused-nested" } else { "refused" };
    c.observed(w, tag, &at(2), ms[2].steps as usize, true);
    if let Some(d) = d {
        let parts = [t.join("\u{1}"), i.to_string(), j.to_string(), nest.map_or(String::new(), |x| format!("{} {}", x.0, x.1))];
        let v: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
        c.rec.violation(w, "pump", &v, &format!("repeating {:?}{} in {:?}: {}", t[i..j].join(" "), nest.map_or(String::new(), |x| format!(" … {:?}", t[x.0..x.1].join(" "))), crate::entries::clip(&t.join(" ")), d));
    }
}
pub fn replay_pump(c: &mut Ctx, p: &[String]) {
    let t: Vec<String> = p[0].split('\u{1}').map(|s| s.to_string()).collect();
    let (i, j): (usize, usize) = (p[1].parse().unwrap(), p[2].parse().unwrap());
    let mut it = p[3].split(' ').filter_map(|x| x.parse::<usize>().ok());
    let nest = match (it.next(), it.next()) {
        (Some(a), Some(b)) => Some((a, b)),
        _ => None,
    };
    let at = |k: usize| pump(&t, i, j, nest, k);
    let open = deepens(&at);
    if let (Some(d), _) = judge_pump(&at, !open) {
        c.rec.violation("pumps", "pump", &[], &d);
    }
}
pub fn find(name: &str) -> Option<Dim> {
    dims().into_iter().chain(hostile_families()).chain(known_families()).find(|d| d.0 == name)
}

/// recorded defects: still there?
pub fn known() {
    for (name, f, max) in known_families() {
        let mut v: Vec<u64> = Vec::new();
        for n in 1..=max {
            v.push(measure(&f(n), 2_000_000_000).steps);
            if *v.last().unwrap() > 100_000_000 {
                break;
            }
        }
        let k = v.len();
        let r: Vec<f64> = (k.saturating_sub(4)..k - 1).map(|i| v[i + 1] as f64 / v[i].max(1) as f64).collect();
        let still = r.iter().all(|x| *x > 1.5);
        println!("KNOWN {} {} steps multiply by {} per level", name, if still { "present" } else { "absent" }, r.iter().map(|x| format!("{:.2}", x)).collect::<Vec<_>>().join(", "));
    }
}
/// one parse of a file, for instruction counting
pub fn once(file: &str) {
    let t = std::fs::read_to_string(file).unwrap();
    let r = guarded(|| weedle::parse(&t).is_ok());
    println!("{:?}", r);
}
pub fn write_family(name: &str, n: usize, file: &str) {
    let d = find(name).expect("family");
    std::fs::write(file, (d.1)(n)).unwrap();
}

pub fn c15(c: &mut Ctx) {
    if steps::GUARDS.load(std::sync::atomic::Ordering::Relaxed) == 0 {
        c.rec.count("SELFTEST-FAILED", 1);
        c.rec.notes.push("not the instrumented build".into());
        return;
    }
    let bytes = if c.thorough { 2_000_000 } else { 300_000 };
    let mut all: Vec<Dim> = dims();
    all.extend(hostile_families());
    for (name, f, max) in all {
        if c.stop() {
            return;
        }
        if c.mine() {
            family(c, name, f, max, bytes);
        }
    }
    traps(c);
    pumps(c, if c.thorough { 30_000 } else { 1_500 });
}
