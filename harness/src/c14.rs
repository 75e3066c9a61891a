//! C14: the outcome of a parse depends on the text alone.
//! Reference outcome of a text: what a process that never parsed anything before reports for it (forked child).
//! Every later observation of the same text, after any history, from any thread, at any place in memory, must agree.
use crate::bases::*;
use crate::ctx::Ctx;
use crate::entries::{clip, run_doc, Entry, Out};
use crate::ev::Ev;
use crate::rng::{fnv, Rng};
use crate::work::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Instant;

#[derive(Clone)]
pub struct Ref {
    /// None: the whole-document parser
    pub entry: Option<Entry>,
    pub text: String,
    pub class: &'static str,
}
impl Ref {
    fn name(&self) -> &'static str {
        self.entry.map_or("weedle::parse", |e| e.name)
    }
    fn run<'a>(&self, text: &'a str) -> Out<'a> {
        match self.entry {
            None => run_doc(text),
            Some(e) => (e.f)(text),
        }
    }
}

fn mix(h: &mut u64, x: u64) {
    *h = (*h ^ x).wrapping_mul(0x100_0000_01b3);
    *h ^= *h >> 29;
}
fn at(text: &str, s: &str) -> u64 {
    let (a, b) = (text.as_ptr() as usize, s.as_ptr() as usize);
    if b >= a && b + s.len() <= a + text.len() {
        (b - a) as u64
    } else {
        u64::MAX
    }
}
/// everything observable about an outcome, independent of addresses
pub fn ohash(text: &str, o: &Out) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    match o {
        Out::Ok(rest, evs) => {
            mix(&mut h, 1);
            mix(&mut h, rest.len() as u64);
            for e in evs {
                match e {
                    Ev::Open(n) => mix(&mut h, fnv(n.as_bytes())),
                    Ev::Close => mix(&mut h, 3),
                    Ev::Absent => mix(&mut h, 4),
                    Ev::Sep(s) => mix(&mut h, fnv(s.as_bytes()) ^ 5),
                    Ev::Tok(k, s) => {
                        mix(&mut h, *k as u64 + 16);
                        if s.as_ptr() as usize != 0 && !matches!(k, crate::ev::K::Kw | crate::ev::K::Punct) {
                            mix(&mut h, at(text, s));
                        }
                        mix(&mut h, fnv(s.as_bytes()));
                    }
                }
            }
        }
        Out::Err(k, rest, d) => {
            mix(&mut h, 2);
            mix(&mut h, *k as u64);
            mix(&mut h, rest.len() as u64);
            mix(&mut h, fnv(d.as_bytes()));
        }
        Out::Panic(m) => {
            mix(&mut h, 9);
            mix(&mut h, fnv(m.as_bytes()));
        }
    }
    h
}

/// the same texts in every shard
pub fn refs(c: &mut Ctx, light: bool) -> Vec<Ref> {
    let (shard, nshards, idx) = (c.shard, c.nshards, c.idx);
    c.shard = 0;
    c.nshards = 1;
    c.idx = 0;
    let mut rng = c.rng_common("c14");
    let mut v: Vec<Ref> = Vec::new();
    let doc = |text: String, class: &'static str| Ref { entry: None, text, class };
    for d in DEFS {
        v.push(doc(d.to_string(), "base"));
    }
    let mut take = |c: &mut Ctx, v: &mut Vec<Ref>, n: usize, class: &'static str, w: &mut dyn FnMut(&mut Ctx, Sink)| {
        let mut all: Vec<String> = Vec::new();
        let mut sink = |_: &mut Ctx, _: &str, t: &str| {
            if t.len() < 3000 {
                all.push(t.to_string())
            }
        };
        w(c, &mut sink);
        let n = if light { n / 8 } else { n };
        for _ in 0..n {
            if !all.is_empty() {
                let i = rng.below(all.len());
                v.push(Ref { entry: None, text: all.swap_remove(i), class });
            }
        }
    };
    if !light {
        take(c, &mut v, 400, "structured", &mut |c, s| w_struct(c, false, s));
    }
    take(c, &mut v, 150, "mutated", &mut |c, s| w_mut(c, 300, s));
    take(c, &mut v, 200, "random", &mut |c, s| w_random(c, 300, s));
    take(c, &mut v, 100, "characters", &mut |c, s| w_char(c, 150, s));
    if !c.kept.is_empty() {
        // texts that take different paths through the parser
        for _ in 0..if light { 40 } else { 200 } {
            v.push(doc(c.kept[rng.below(c.kept.len())].clone(), "guided"));
        }
    }
    for (name, f, _) in crate::sized::dims() {
        let _ = name;
        v.push(doc(f(if light { 5 } else { 40 }), "sized"));
    }
    for (_, f, _) in crate::sized::hostile_families() {
        v.push(doc(f(if light { 5 } else { 40 }), "hostile"));
    }
    // something unusual in front, behind, or in between
    if !light {
        let odd = [
            "\u{feff}", "\u{0}", "\u{a0}", "\u{200b}", "\u{2028}", "\u{85}", "\u{c}", "\u{b}", "\r", "\r\n", "\t", "\n\n", "\u{301}", "\u{fffd}", "é", "#!/x\n", "// x\n", "/* x */", "/**/", "#", "@", ";", "x", "_", "-", "\"", "0", "1.5", "\u{1a}", "\\", "<!--", "%",
        ];
        let bases = [DEFS[0], DEFS[rng.below(DEFS.len())], "", "x"];
        for o in odd {
            for b in bases {
                v.push(doc(format!("{}{}", o, b), "odd"));
                v.push(doc(format!("{}{}", b, o), "odd"));
                v.push(doc(format!("{} {} {}", b, o, b), "odd"));
            }
        }
    }
    // two texts of the same length that differ in one place in the middle
    let n = v.len();
    for i in 0..n {
        if i % 6 != 0 {
            continue;
        }
        let t = v[i].text.clone();
        let l = crate::lex::lex(&t);
        let cand: Vec<usize> = l.iter().filter(|k| k.cls == crate::lex::Cls::Word && !crate::grammar::is_kw(k.text) && k.text.len() > 0 && k.text.is_ascii()).map(|k| k.off + k.text.len() - 1).collect();
        if !cand.is_empty() {
            let at = cand[rng.below(cand.len())];
            let mut b = t.into_bytes();
            b[at] = if b[at] == b'q' { b'w' } else { b'q' };
            if let Ok(s) = String::from_utf8(b) {
                v.push(doc(s, "twin"));
            }
        }
    }
    // every public element on its own
    let mut els: Vec<Ref> = Vec::new();
    if !light {
        w_entry(c, 2, |_, e, core, fo| els.push(Ref { entry: Some(*e), text: format!("{}{}", core, fo), class: "element" }));
    }
    v.extend(els);
    v.retain(|r| attr_arg_nesting(&words(&r.text)) <= 3);
    c.shard = shard;
    c.nshards = nshards;
    c.idx = idx;
    v
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}
/// outcome of the first parse of a process; None when that process did not survive it
fn fresh(r: &Ref) -> Option<u64> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return None;
        }
        let pid = fork();
        if pid == 0 {
            let h = ohash(&r.text, &r.run(&r.text));
            let b = h.to_le_bytes();
            write(fds[1], b.as_ptr(), 8);
            _exit(0);
        }
        close(fds[1]);
        let mut b = [0u8; 8];
        let n = read(fds[0], b.as_mut_ptr(), 8);
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        if n == 8 {
            Some(u64::from_le_bytes(b))
        } else {
            None
        }
    }
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn into(self) -> T {
        self.0
    }
}

// compile-time facts observed without failing the build when they do not hold
struct P<T>(std::marker::PhantomData<T>);
trait No {
    fn send(&self) -> bool {
        false
    }
    fn sync(&self) -> bool {
        false
    }
}
impl<T> No for &P<T> {}
struct PS<T>(std::marker::PhantomData<T>);
impl<T> No for &PS<T> {}
impl<T: Send> P<T> {
    fn send(&self) -> bool {
        true
    }
}
impl<T: Sync> PS<T> {
    fn sync(&self) -> bool {
        true
    }
}
macro_rules! probe {
    ($($t:ty),* $(,)?) => { vec![$( (stringify!($t), (&P::<$t>(std::marker::PhantomData)).send(), (&PS::<$t>(std::marker::PhantomData)).sync()) ),*] }
}

type Seen<'x> = (&'x [Ref], &'x [u64]);
fn bad(c: &mut Ctx, how: &str, r: &Ref, o: &str) {
    let tier = if c.thorough { "thorough" } else { "quick" };
    let (seed, shard, n) = (c.seed.to_string(), c.shard.to_string(), c.nshards.to_string());
    c.rec.violation(how, "purity", &[&seed, &shard, &n, tier, r.name(), &r.text], &format!("{}: {} on {:?} reports {} here, but something else as the first parse of a fresh process", how, r.name(), clip(&r.text), o));
}
/// one more observation of text `i`
fn see(c: &mut Ctx, how: &str, s: Seen, i: usize, text: &str) {
    let r = &s.0[i];
    let o = r.run(text);
    c.rec.evaluations += 1;
    if let Out::Ok(_, e) = &o {
        c.rec.events += e.len() as u64;
    }
    if ohash(text, &o) != s.1[i] {
        let b = o.brief();
        bad(c, how, r, &b);
    }
}
fn shuffled(n: usize, rng: &mut Rng) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        v.swap(i, rng.below(i + 1));
    }
    v
}
fn silent(r: &Ref) {
    match r.entry {
        None => {
            let _ = crate::entries::guarded(|| {
                let _ = weedle::parse(&r.text);
            });
        }
        Some(e) => {
            let _ = (e.f)(&r.text);
        }
    }
}

pub fn c14(c: &mut Ctx, light: bool) {
    let all = refs(c, light);
    let mut rng = c.rng("c14-order");
    // 1. reference outcomes
    let mut rs = Vec::new();
    let mut hs = Vec::new();
    let mut died = 0;
    for r in all {
        let h = if light {
            Some(0)
        } else {
            c.crumb("purity-fresh", &[r.name(), &r.text]);
            fresh(&r)
        };
        match h {
            Some(h) => {
                rs.push(r);
                hs.push(h);
            }
            None => died += 1,
        }
    }
    if light {
        for i in 0..rs.len() {
            hs[i] = ohash(&rs[i].text, &rs[i].run(&rs[i].text));
        }
    } else {
        c.rec.count("fresh-processes", (rs.len() + died) as u64);
        c.rec.count("fresh-processes-lost", died as u64);
        c.rec.digest = Some(hs.iter().map(|h| format!("{:x}", h)).collect::<Vec<_>>().join(" "));
    }
    for r in &rs {
        c.rec.count(&format!("texts/{}", r.class), 1);
        if c.rec.distinct.insert(fnv(format!("{} {}", r.name(), r.text).as_bytes())) && rng.chance(1, 40) {
            c.rec.sample(r.class, &format!("{} <- {}", r.name(), r.text));
        }
    }
    let s: Seen = (&rs, &hs);
    let n = rs.len();
    if n == 0 {
        return;
    }
    // 2. all of them once, in this shard's own order
    for i in shuffled(n, &mut rng) {
        c.crumb("purity", &["shuffled", rs[i].name(), &rs[i].text]);
        see(c, "after-other-texts", s, i, &rs[i].text);
    }
    // 3. what the type system lets callers do with results
    let control = probe!(std::rc::Rc<u8>, std::cell::Cell<u8>);
    if (control[0].1, control[0].2, control[1].1, control[1].2) != (false, false, true, false) {
        c.rec.count("SELFTEST-FAILED", 1);
    }
    for (t, send, sync) in probe!(weedle::Definitions<'static>, weedle::Definition<'static>, weedle::Err<(&'static str, weedle::ErrorKind)>, weedle::types::Type<'static>, weedle::literal::DefaultValue<'static>, weedle::attribute::ExtendedAttributeList<'static>, weedle::interface::InterfaceMember<'static>) {
        c.rec.evaluations += 1;
        c.rec.count("auto-trait-probes", 2);
        if !send || !sync {
            c.rec.violation("auto-traits", "purity", &["", "", "", "", t, ""], &format!("{} cannot be {} between threads", t, if send { "shared" } else { "sent" }));
        }
    }
    // 4. long histories: every text as a burst, then the others again
    if !light {
        let per = if c.thorough { 0.25 } else { 0.012 };
        let order = shuffled(n, &mut rng);
        let mut bursts = 0u64;
        for (k, &i) in order.iter().enumerate() {
            if c.stop() {
                break;
            }
            if (i + c.seed as usize) % c.nshards != c.shard {
                continue;
            }
            c.crumb("purity", &["burst", rs[i].name(), &rs[i].text]);
            let t0 = Instant::now();
            let mut m = 0u64;
            while m < 10 || (t0.elapsed().as_secs_f64() < per && m < 70_000) {
                silent(&rs[i]);
                m += 1;
            }
            bursts += 1;
            c.rec.count("burst-parses", m);
            c.rec.max("longest-burst", m);
            see(c, "after-burst", s, i, &rs[i].text);
            for _ in 0..30 {
                let j = rng.below(n);
                c.crumb("purity", &["after-burst", rs[j].name(), &rs[j].text]);
                see(c, "after-burst", s, j, &rs[j].text);
            }
            if k % 25 == 0 {
                for j in 0..n {
                    see(c, "after-burst", s, j, &rs[j].text);
                }
            }
        }
        c.rec.count("bursts", bursts);
        for j in 0..n {
            see(c, "after-bursts", s, j, &rs[j].text);
        }
    }
    // 5. the same place in memory, overwritten with one text after the other; every alignment and neighbourhood
    let mut buf = String::with_capacity(400_000);
    let rounds = if light { 1 } else if c.thorough { 40 } else { 2 };
    for _ in 0..rounds {
        for i in shuffled(n, &mut rng) {
            buf.clear();
            buf.push_str(&rs[i].text);
            see(c, "overwritten-buffer", s, i, &buf);
        }
    }
    // texts of equal length in turn at one address
    let mut by_len: Vec<usize> = (0..n).collect();
    by_len.sort_by_key(|i| (rs[*i].text.len(), fnv(rs[*i].text.as_bytes())));
    let mut pairs = 0;
    for w in by_len.windows(2) {
        if rs[w[0]].text.len() == rs[w[1]].text.len() && !rs[w[0]].text.is_empty() {
            pairs += 1;
            for i in [w[0], w[1], w[0], w[1]] {
                buf.clear();
                buf.push_str(&rs[i].text);
                see(c, "equal-length-buffer", s, i, &buf);
            }
        }
    }
    c.rec.count("equal-length-pairs", pairs);
    let pre = ["", "x", "/", "/*", "\"", "//", "é", "_", "1", "-", "interface ", "0x", "\u{0}"];
    let post = ["", "x", "*/", "\"", "\n", "1", "_", "-x", ".5", "é", " long", "/", ">", "?", ";", "\u{0}"];
    for i in 0..n {
        if (i + c.shard) % (if c.thorough { 1 } else { 2 }) != 0 || (light && i % 4 != 0) {
            continue;
        }
        let base = rng.below(16);
        for k in 0..if light { 2 } else { 6 } {
            let pad = (base + k * 3) % 16;
            buf.clear();
            buf.push_str(&" ".repeat(pad));
            buf.push_str(*rng.pick(&pre));
            let a = buf.len();
            buf.push_str(&rs[i].text);
            let b = buf.len();
            buf.push_str(*rng.pick(&post));
            see(c, "placed-in-larger-text", s, i, &buf[a..b]);
        }
    }
    // starts and ends at round addresses
    {
        let mut room = vec![b' '; 600_000];
        let base = room.as_ptr() as usize;
        for i in 0..n {
            if (i + c.shard) % (if light { 8 } else { 1 }) != 0 || rs[i].text.len() > 60_000 {
                continue;
            }
            for (k, align) in [64usize, 256, 4096, 65536].into_iter().enumerate() {
                let a = (base + 70_000) / align * align + align - base;
                let t = rs[i].text.as_bytes();
                for at in [a, a - t.len()] {
                    room[at..at + t.len()].copy_from_slice(t);
                    if k % 2 == 0 {
                        // something else right in front and behind
                        room[at - 1] = b'/';
                        room[at + t.len()] = b'x';
                    }
                    let placed = std::str::from_utf8(&room[at..at + t.len()]).expect("the same text");
                    see(c, "at-a-round-address", s, i, placed);
                }
            }
        }
    }
    // 6. results kept while other texts are parsed, looked at again and dropped elsewhere
    {
        let docs: Vec<usize> = (0..n).filter(|i| rs[*i].entry.is_none()).collect();
        let kept: Vec<(usize, weedle::Definitions)> = docs
            .iter()
            .filter_map(|&i| match crate::entries::guarded(|| weedle::parse(&rs[i].text)) {
                Ok(Ok(d)) => Some((i, d)),
                _ => None,
            })
            .collect();
        let dump = |d: &weedle::Definitions, t: &str| {
            let mut e = Vec::new();
            crate::dump::Dump::dump(d, &mut e);
            // the events borrow from the text; hash them here
            let e: Vec<Ev> = e;
            ohash(t, &Out::Ok(&t[t.len()..], e))
        };
        for _ in 0..n.min(500) {
            silent(&rs[rng.below(n)]);
        }
        let mut wrong: Vec<usize> = Vec::new();
        for (i, d) in &kept {
            c.rec.evaluations += 1;
            if dump(d, &rs[*i].text) != hs[*i] {
                wrong.push(*i);
            }
        }
        c.rec.count("results-kept", kept.len() as u64);
        let kept = Force(kept);
        let w2 = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for t in 0..4 {
                let (kept, w2, rs, hs) = (&kept, &w2, &rs, &hs);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    for k in 0..kept.get().len() {
                        let (i, d) = &kept.get()[(k * 7 + t) % kept.get().len()];
                        let x = d.clone();
                        if dump(d, &rs[*i].text) != hs[*i] || dump(&x, &rs[*i].text) != hs[*i] {
                            w2.lock().unwrap().push(*i);
                        }
                    }
                }).expect("thread");
            }
        });
        std::thread::scope(|sc| {
            std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || drop(kept.into())).expect("thread");
        });
        c.rec.count("results-read-by-4-threads", 1);
        wrong.extend(w2.into_inner().unwrap());
        for i in wrong.into_iter().take(3) {
            bad(c, "kept-result", &rs[i], "a different value when looked at again");
        }
    }
    // 7. circumstances of the call, and threads; meanwhile some parses are stalled
    if light {
        threads(c, s, &mut rng, light);
    } else {
        circumstances(c, s, &mut rng);
        big(c, s, &mut rng);
        let wrong: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
        let stalled = AtomicU64::new(0);
        let docs: Vec<usize> = (0..n).filter(|i| matches!(rs[*i].class, "base" | "guided" | "sized" | "odd")).collect();
        std::thread::scope(|sc| {
            for (k, ms) in [300u64, 700, 1100, 2100, 3100, 5200, 10_200, 15_200, 31_000, 31_000, 61_500, 121_000, 301_000].into_iter().enumerate() {
                if ms > if c.thorough { 400_000 } else { 32_000 } {
                    continue;
                }
                for half in 0..2 {
                    let i = docs[rng.below(docs.len())];
                    let at = if half == 0 { rng.below(4) as u64 } else { 1 + rng.below(400) as u64 };
                    let (wrong, stalled, rs, hs) = (&wrong, &stalled, &rs, &hs);
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                        std::thread::sleep(std::time::Duration::from_millis(7 * k as u64));
                        crate::steps::stall(at, ms);
                        let o = rs[i].run(&rs[i].text);
                        if crate::steps::stall(u64::MAX, 0) {
                            stalled.fetch_add(1, Ordering::Relaxed);
                        }
                        if ohash(&rs[i].text, &o) != hs[i] {
                            wrong.lock().unwrap().push((i, o.brief()));
                        }
                    }).expect("thread");
                }
            }
            threads(c, s, &mut rng, light);
        });
        c.rec.count("parses-stalled-midway", stalled.load(Ordering::Relaxed));
        c.rec.evaluations += stalled.load(Ordering::Relaxed);
        for (i, b) in wrong.into_inner().unwrap().into_iter().take(3) {
            bad(c, "stalled", &rs[i], &b);
        }
    }
    c.rec.count("thread-switches-inside-a-parse", crate::steps::SWITCHES.load(Ordering::Relaxed));
    c.rec.count("distinct-interleaved-edge-pairs", crate::steps::PAIRS.load(Ordering::Relaxed));
    // 8. everything once more, in order
    for i in 0..n {
        see(c, "at-the-end", s, i, &rs[i].text);
    }
}

#[inline(never)]
fn below(bytes: usize, f: &mut dyn FnMut()) {
    let room = std::hint::black_box([0u8; 16384]);
    if bytes > room.len() {
        below(bytes - room.len(), f);
    } else {
        f();
    }
    std::hint::black_box(&room);
}
/// a parse in a destructor
struct Late {
    r: Ref,
    want: u64,
    wrong: Arc<Mutex<Vec<(Ref, String)>>>,
    done: Arc<AtomicU64>,
}
impl Drop for Late {
    fn drop(&mut self) {
        let o = self.r.run(&self.r.text);
        self.done.fetch_add(1, Ordering::Relaxed);
        if ohash(&self.r.text, &o) != self.want {
            if let Ok(mut w) = self.wrong.lock() {
                w.push((self.r.clone(), o.brief()));
            }
        }
    }
}
thread_local! { static LATE: std::cell::RefCell<Vec<Late>> = const { std::cell::RefCell::new(Vec::new()) }; }

extern "C" {
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn setuid(uid: u32) -> i32;
    fn setgid(gid: u32) -> i32;
    fn chdir(p: *const u8) -> i32;
    fn setsid() -> i32;
    fn nice(n: i32) -> i32;
    fn umask(n: u32) -> u32;
    fn setrlimit(what: i32, lim: *const u64) -> i32;
    fn clearenv() -> i32;
    fn alarm(s: u32) -> u32;
    fn dup2(a: i32, b: i32) -> i32;
}
/// outcomes in a child of this process, which has parsed a lot already, under other conditions
fn child(s: Seen, ids: &[usize], k: usize) -> Vec<Option<u64>> {
    unsafe {
        let mut fds = [0i32; 2];
        if pipe(fds.as_mut_ptr()) != 0 {
            return Vec::new();
        }
        let pid = fork();
        if pid == 0 {
            alarm(20);
            let out = 200;
            dup2(fds[1], out);
            match k {
                1 => {
                    sched_setaffinity(0, 8, &1u64);
                }
                2 => {
                    chdir(c"/proc".as_ptr() as *const u8);
                    umask(0o777);
                    for fd in 0..3 {
                        close(fd);
                    }
                }
                3 => {
                    setgid(65534);
                    setuid(65534);
                }
                4 => {
                    setsid();
                    nice(10);
                }
                // no more files, no file may grow
                5 => {
                    setrlimit(7, [3u64, 3].as_ptr());
                    setrlimit(1, [0u64, 0].as_ptr());
                }
                6 => {
                    clearenv();
                }
                _ => {}
            }
            for &i in ids {
                let r = &s.0[i];
                let b = ohash(&r.text, &r.run(&r.text)).to_le_bytes();
                write(out, b.as_ptr(), 8);
            }
            _exit(0);
        }
        close(fds[1]);
        let mut v = Vec::new();
        for _ in ids {
            let mut b = [0u8; 8];
            let mut n = 0;
            while n < 8 {
                let m = read(fds[0], b.as_mut_ptr().add(n), 8 - n);
                if m <= 0 {
                    break;
                }
                n += m as usize;
            }
            v.push(if n == 8 { Some(u64::from_le_bytes(b)) } else { None });
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        v
    }
}

/// where and when the parser is called must not matter
fn circumstances(c: &mut Ctx, s: Seen, rng: &mut Rng) {
    let n = s.0.len();
    let many = if c.thorough { 20 } else { 1 };
    let some = |rng: &mut Rng, k: usize| -> Vec<usize> { (0..k).map(|_| rng.below(n)).collect() };
    // (a) at other depths of the call stack, shallow first and deep first
    let depths = [0usize, 20_000, 70_000, 140_000, 300_000, 700_000, 1_100_000, 2_200_000, 4_500_000, 9_000_000, 40_000_000, 140_000_000];
    for round in 0..2 * many {
        let mut ds = depths.to_vec();
        if round % 2 == 1 {
            ds.reverse();
        }
        let mut ids = some(rng, 12);
        ids.push(rng.below(DEFS.len().min(n)));
        let wrong: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            let (ds, ids, wrong) = (&ds, &ids, &wrong);
            std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                for d in ds {
                    below(*d, &mut || {
                        for &i in ids {
                            let o = s.0[i].run(&s.0[i].text);
                            if ohash(&s.0[i].text, &o) != s.1[i] {
                                wrong.lock().unwrap().push((i, o.brief()));
                            }
                        }
                    });
                }
            }).expect("thread");
        });
        c.rec.count("parses-at-other-stack-depths", (ids.len() * ds.len()) as u64);
        c.rec.evaluations += (ids.len() * ds.len()) as u64;
        for (i, b) in wrong.into_inner().unwrap().into_iter().take(3) {
            bad(c, "at-another-stack-depth", &s.0[i], &b);
        }
    }
    // (b) in destructors while a panic unwinds, (c) in destructors of thread locals, (d) in threads of various names
    let wrong = Arc::new(Mutex::new(Vec::new()));
    let done = Arc::new(AtomicU64::new(0));
    let late = |i: usize| Late { r: s.0[i].clone(), want: s.1[i], wrong: wrong.clone(), done: done.clone() };
    for i in some(rng, 60 * many) {
        let l = late(i);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _l = l;
            std::panic::resume_unwind(Box::new(0u8));
        }));
        let (l, m) = (late(i), late(rng.below(n)));
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _l = (l, m);
            panic!("deliberate");
        }));
    }
    c.rec.count("parses-while-unwinding", done.swap(0, Ordering::Relaxed));
    for name in ["", "main", "worker", "tokio-runtime-worker", "rayon-0", "a thread with a name much longer than what the kernel keeps of it", "é", "test"] {
        let v: Vec<Late> = some(rng, 8 * many).into_iter().map(late).collect();
        let w: Vec<Late> = some(rng, 8 * many).into_iter().map(late).collect();
        let first = rng.below(2) == 0;
        let t = std::thread::Builder::new().name(name.into()).stack_size(64 << 20).spawn(move || {
            // registered before or after whatever the parser registers
            if first {
                LATE.with(|l| *l.borrow_mut() = v);
                drop(w);
            } else {
                drop(w);
                LATE.with(|l| *l.borrow_mut() = v);
            }
        });
        let _ = t.expect("thread").join();
    }
    c.rec.count("parses-in-named-threads-and-at-their-end", done.swap(0, Ordering::Relaxed));
    let w: Vec<(Ref, String)> = wrong.lock().unwrap().drain(..).collect();
    for (r, b) in w.into_iter().take(3) {
        bad(c, "in-a-destructor", &r, &b);
    }
    // (e) in children of this process
    for k in 0..8 {
        let ids = some(rng, 25 * many);
        let got = child(s, &ids, k);
        for (i, h) in ids.iter().zip(got) {
            c.rec.evaluations += 1;
            c.rec.count("parses-in-children", 1);
            if h != Some(s.1[*i]) {
                bad(c, &format!("in-a-child-{}", k), &s.0[*i], if h.is_none() { "nothing (the child died)" } else { "another outcome" });
                break;
            }
        }
    }
}

/// large documents among small ones, one after the other and at the same time
fn big(c: &mut Ctx, s: Seen, rng: &mut Rng) {
    let docs: Vec<usize> = (0..s.0.len()).filter(|i| matches!(s.0[*i].class, "base" | "sized" | "structured" | "guided")).collect();
    let mut texts: Vec<String> = vec![
        "typedef long A;\n".repeat(25_000),
        format!("interface I {{\n{}}};", "  readonly attribute DOMString? a;\n".repeat(10_000)),
        format!("enum E {{{}\"x\"}};", "\"value\", ".repeat(40_000)),
        format!("/*{}*/ typedef long A; // {}", "x ".repeat(200_000), "é".repeat(50_000)),
        format!("{}]", "typedef (A or B)? C;".repeat(20_000)),
    ];
    // and what the small ones make together
    for _ in 0..2 {
        let mut t = String::new();
        while t.len() < 350_000 {
            t.push_str(&s.0[docs[rng.below(docs.len())]].text);
            t.push('\n');
        }
        texts.push(t);
    }
    let rs: Vec<Ref> = texts.into_iter().map(|text| Ref { entry: None, text, class: "big" }).collect();
    let hs: Vec<Option<u64>> = rs.iter().map(fresh).collect();
    let wrong: Mutex<Vec<(String, Ref, String)>> = Mutex::new(Vec::new());
    let n = AtomicU64::new(0);
    let look = |how: &str, r: &Ref, want: u64| {
        let o = r.run(&r.text);
        n.fetch_add(1, Ordering::Relaxed);
        if ohash(&r.text, &o) != want {
            wrong.lock().unwrap().push((how.to_string(), r.clone(), o.brief()));
        }
    };
    for (r, h) in rs.iter().zip(&hs) {
        if let Some(h) = h {
            look("large-document", r, *h);
            for _ in 0..10 {
                let i = docs[rng.below(docs.len())];
                look("after-large-document", &s.0[i], s.1[i]);
            }
        }
    }
    for _ in 0..if c.thorough { 10 } else { 1 } {
        let bar = Barrier::new(8);
        std::thread::scope(|sc| {
            for t in 0..8usize {
                let (bar, rs, hs, look) = (&bar, &rs, &hs, &look);
                let seed = rng.next();
                let docs = &docs;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut r = Rng::new(seed);
                    bar.wait();
                    for k in 0..rs.len() {
                        if t < 5 {
                            let k = (k + t) % rs.len();
                            if let Some(h) = hs[k] {
                                look("large-documents-at-the-same-time", &rs[k], h);
                            }
                        } else {
                            for _ in 0..300 {
                                let i = docs[r.below(docs.len())];
                                look("beside-large-documents", &s.0[i], s.1[i]);
                            }
                        }
                    }
                }).expect("thread");
            }
        });
    }
    c.rec.evaluations += n.load(Ordering::Relaxed);
    c.rec.count("large-documents", rs.len() as u64);
    c.rec.count("observations-with-large-documents", n.load(Ordering::Relaxed));
    let w: Vec<(String, Ref, String)> = wrong.lock().unwrap().drain(..).collect();
    for (how, r, b) in w.into_iter().take(3) {
        bad(c, &how, &r, &b);
    }
}

/// a process that parses now and then over a longer time
pub fn age(c: &mut Ctx) {
    let all = refs(c, false);
    let mut rng = c.rng("c14-age");
    let (mut rs, mut hs) = (Vec::new(), Vec::new());
    for r in all {
        if !(r.class == "base" || rng.chance(1, 6)) {
            continue;
        }
        c.crumb("purity-fresh", &[r.name(), &r.text]);
        if let Some(h) = fresh(&r) {
            rs.push(r);
            hs.push(h);
        }
    }
    let s: Seen = (&rs, &hs);
    let n = rs.len();
    if n == 0 {
        return;
    }
    let t0 = Instant::now();
    let mut round = 0u64;
    // pauses of growing length; each shard has its own
    let mut pause = [0.9, 1.7, 3.1, 5.3, 10.3, 15.5, 20.5, 30.5][c.shard % 8];
    while t0.elapsed().as_secs_f64() + pause < c.deadline.as_secs_f64() {
        for k in 0..n {
            // another text is the first one after each pause
            let i = (k + (round as usize * 8 + c.shard) * 7) % n;
            see(c, "after-a-pause", s, i, &rs[i].text);
        }
        std::thread::sleep(std::time::Duration::from_secs_f64(pause));
        round += 1;
        pause *= 1.37;
    }
    for i in 0..n {
        see(c, "after-a-pause", s, i, &rs[i].text);
    }
    c.rec.count("pauses", round);
    c.rec.max("process-age-seconds", t0.elapsed().as_secs());
}

fn threads(c: &mut Ctx, s: Seen, rng: &mut Rng, light: bool) {
    let n = s.0.len();
    let rounds = if light { 3 } else if c.thorough { 60 } else { 4 };
    let nt = 8;
    let stop = Arc::new(AtomicBool::new(false));
    let overlap = AtomicU64::new(0);
    let active = AtomicU64::new(0);
    for round in 0..rounds {
        if c.stop() {
            break;
        }
        c.crumb("purity", &["threads", &round.to_string()]);
        // every second round with delays inside the parses (instrumented build)
        let shaken = round % 2 == 0;
        crate::steps::SHAKE.store(shaken, Ordering::Relaxed);
        let bar = Barrier::new(nt);
        let wrong: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
        let evs = AtomicU64::new(0);
        let evals = AtomicU64::new(0);
        // round % 3: 0 everyone in an own order; 1 everyone the same texts at the same time; 2 failing and passing texts against each other
        let seeds: Vec<u64> = (0..nt).map(|_| rng.next()).collect();
        let same = rng.next();
        std::thread::scope(|sc| {
            for t in 0..nt {
                let seed = if round % 3 == 1 { same } else { seeds[t] };
                let (bar, wrong, evs, evals, overlap, active, stop) = (&bar, &wrong, &evs, &evals, &overlap, &active, &stop);
                let body = move || {
                    let mut r = Rng::new(seed);
                    let mut order = shuffled(n, &mut r);
                    if round % 3 == 2 {
                        order.retain(|i| matches!(s.0[*i].class, "hostile" | "mutated" | "characters") == (t % 2 == 0));
                    }
                    if shaken {
                        order.truncate(300);
                    }
                    bar.wait();
                    for (k, i) in order.into_iter().enumerate() {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if k % 97 == 0 && t % 2 == 1 {
                            std::thread::yield_now();
                        }
                        active.fetch_add(1, Ordering::Relaxed);
                        // an own copy in every second thread, one shared text otherwise
                        let copy;
                        let text: &str = if t % 2 == 0 {
                            &s.0[i].text
                        } else {
                            copy = s.0[i].text.clone();
                            &copy
                        };
                        let o = s.0[i].run(text);
                        if active.load(Ordering::Relaxed) > 1 {
                            overlap.fetch_add(1, Ordering::Relaxed);
                        }
                        active.fetch_sub(1, Ordering::Relaxed);
                        evals.fetch_add(1, Ordering::Relaxed);
                        if let Out::Ok(_, e) = &o {
                            evs.fetch_add(e.len() as u64, Ordering::Relaxed);
                        }
                        if ohash(text, &o) != s.1[i] {
                            let mut w = wrong.lock().unwrap();
                            if w.len() < 3 {
                                w.push((i, o.brief()));
                            }
                        }
                    }
                };
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, body).expect("thread");
            }
        });
        crate::steps::SHAKE.store(false, Ordering::Relaxed);
        c.rec.evaluations += evals.load(Ordering::Relaxed);
        c.rec.events += evs.load(Ordering::Relaxed);
        c.rec.count("thread-rounds", 1);
        for (i, b) in wrong.into_inner().unwrap() {
            bad(c, "concurrent", &s.0[i], &b);
        }
    }
    c.rec.count("parses-overlapping-another", overlap.load(Ordering::Relaxed));
    // threads that are born, parse and die
    let k = if light { 20 } else if c.thorough { 2000 } else { 150 };
    for _ in 0..k {
        if c.stop() {
            break;
        }
        let seed = rng.next();
        let wrong: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for t in 0..3u64 {
                let wrong = &wrong;
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    let mut r = Rng::new(seed ^ (t * 0x9E37));
                    for _ in 0..12 {
                        let i = r.below(n);
                        let o = s.0[i].run(&s.0[i].text);
                        if ohash(&s.0[i].text, &o) != s.1[i] {
                            wrong.lock().unwrap().push((i, o.brief()));
                        }
                    }
                }).expect("thread");
            }
        });
        c.rec.count("short-lived-threads", 3);
        c.rec.evaluations += 36;
        for (i, b) in wrong.into_inner().unwrap().into_iter().take(2) {
            bad(c, "short-lived-thread", &s.0[i], &b);
        }
    }
}

/// long runs of one short text, most of them refused, then everything else again: whatever a parse leaves behind adds up
pub fn hist(c: &mut Ctx) {
    let all = refs(c, false);
    let mut rng = c.rng("c14-hist");
    let (mut rs, mut hs) = (Vec::new(), Vec::new());
    for r in all {
        if r.entry.is_some() || !(matches!(r.class, "base" | "sized") || rng.chance(1, 3)) {
            continue;
        }
        c.crumb("purity-fresh", &[r.name(), &r.text]);
        if let Some(h) = fresh(&r) {
            c.rec.distinct.insert(fnv(format!("{} {}", r.name(), r.text).as_bytes()));
            rs.push(r);
            hs.push(h);
        }
    }
    let s: Seen = (&rs, &hs);
    let n = rs.len();
    if n == 0 {
        return;
    }
    let base: Vec<usize> = (0..n).filter(|i| rs[*i].class == "base").collect();
    // as many parses as counters of 24 bits hold, of texts that cost next to nothing
    {
        let t = ["", "x", " ", "//", "/*", "typedef long T;", ";", "\""][c.shard % 8];
        c.crumb("purity", &["very-long-burst", "weedle::parse", t]);
        let t0 = Instant::now();
        let mut m = 0u64;
        let _ = crate::entries::guarded(|| {
            while m < (1 << 24) + 10 && (m % 4096 != 0 || t0.elapsed().as_secs() < 30) {
                let _ = weedle::parse(t);
                m += 1;
            }
        });
        c.rec.count("burst-parses", m);
        c.rec.max("longest-burst", m);
        for j in 0..n {
            see(c, "after-very-long-burst", s, j, &rs[j].text);
        }
    }
    let texts: Vec<String> = c.texts.as_ref().map(|f| std::fs::read_to_string(f).expect("texts").split('\u{1}').map(|s| s.to_string()).collect()).unwrap_or_else(damaged);
    let burst = 66_000u64;
    for t in &texts {
        if !c.mine() {
            continue;
        }
        if c.stop() {
            c.rec.count("texts-left-out-for-time", 1);
            continue;
        }
        c.crumb("purity", &["long-burst", "weedle::parse", t]);
        let _ = crate::entries::guarded(|| {
            for _ in 0..burst {
                let _ = weedle::parse(t);
            }
        });
        c.rec.count("long-bursts", 1);
        c.rec.count("burst-parses", burst);
        c.rec.max("longest-burst", burst);
        for &j in &base {
            see(c, "after-long-burst", s, j, &rs[j].text);
        }
        for _ in 0..12 {
            let j = rng.below(n);
            see(c, "after-long-burst", s, j, &rs[j].text);
        }
    }
    for j in 0..n {
        see(c, "after-long-bursts", s, j, &rs[j].text);
    }
}

/// short texts of every construct, cut and damaged
fn damaged() -> Vec<String> {
    let mut docs: Vec<Vec<String>> = DEFS.iter().map(|d| words(d)).collect();
    for (pre, ms) in [("interface I", IF_MEMBERS), ("interface mixin I", MIXIN_MEMBERS), ("namespace I", NS_MEMBERS), ("dictionary I", DICT_MEMBERS)] {
        docs.extend(ms.iter().map(|m| words(&format!("{} {{ {} }} ;", pre, m))));
    }
    docs.extend(BASE_TYPES.iter().map(|t| words(&format!("typedef {} T ;", t))));
    docs.extend(ATTR_FORMS.iter().map(|a| words(&format!("[ {} ] typedef long T ;", a))));
    docs.extend(VALUES.iter().map(|v| words(&format!("dictionary D {{ any x = {} ; }} ;", v))));
    let mut texts: Vec<String> = Vec::new();
    for d in &docs {
        texts.push(d.join(" "));
        for i in 0..d.len() {
            texts.push(d[..i].join(" "));
            let mut e = d.clone();
            e.remove(i);
            texts.push(e.join(" "));
        }
    }
    for t in ["/*", "/* x", "//", "// x", "\"", "\"x", "typedef long /*", "typedef long // x", "enum E { \"", "x", "_", "-", "0x", "é", "\u{0}"] {
        texts.push(t.to_string());
    }
    texts.sort();
    texts.dedup();
    texts.retain(|t| t.len() < 120);
    texts
}
/// instrumented build: one damaged text per distinct set of executed edges; first those that reach an edge for the first time
pub fn hist_texts(file: &str) {
    let mut seen = std::collections::HashSet::new();
    let mut out: Vec<(bool, u64, String)> = Vec::new();
    let mut all = damaged();
    all.sort_by_key(|t| t.len());
    for t in all {
        crate::steps::mark();
        crate::steps::reset(u64::MAX);
        let e = crate::steps::new_edges();
        let _ = run_doc(&t);
        let n = crate::steps::steps();
        let old = crate::steps::new_edges() == e;
        if seen.insert((crate::steps::signature(), 64 - n.leading_zeros())) {
            out.push((old, n, t));
        }
    }
    out.sort();
    println!("{} {}", out.iter().filter(|x| !x.0).count(), out.len());
    std::fs::write(file, out.into_iter().map(|x| x.2).collect::<Vec<_>>().join("\u{1}")).expect("write");
}
