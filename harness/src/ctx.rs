//! Run context: budget, breadcrumbs, recording of observations, shrinking, command line.
use crate::entries::{entries, install_panic_hook, run_doc, Entry, Out};
use crate::grammar::Grammar;
use crate::lex::lex;
use crate::mon;
use crate::pool::Pool;
use crate::rec::Rec;
use crate::rng::{fnv, Rng};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub g: Grammar,
    pub pool: Pool,
    pub entries: Vec<Entry>,
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub shard: usize,
    pub nshards: usize,
    pub rec: Rec,
    pub start: Instant,
    pub deadline: Duration,
    pub idx: usize,
    crumb: Option<std::fs::File>,
    pub src_dir: String,
    pub tests_dir: String,
    pub texts: Option<String>,
    /// texts kept by the guided workload
    pub kept: Vec<String>,
}

impl Ctx {
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::from_parts(&[self.seed, self.shard as u64, fnv(salt.as_bytes()), fnv(self.prop.as_bytes())])
    }
    /// same stream in every shard
    pub fn rng_common(&self, salt: &str) -> Rng {
        Rng::from_parts(&[self.seed, 1_000_003, fnv(salt.as_bytes())])
    }
    /// true for the share of an enumeration that belongs to this shard
    pub fn mine(&mut self) -> bool {
        self.idx += 1;
        self.idx % self.nshards == self.shard
    }
    pub fn stop(&self) -> bool {
        self.rec.full() || self.start.elapsed() > self.deadline
    }
    /// what is about to run, for the case that the process does not survive it
    pub fn crumb(&self, kind: &str, parts: &[&str]) {
        if let Some(f) = &self.crumb {
            let mut b = Vec::with_capacity(64 + parts.iter().map(|p| p.len() + 8).sum::<usize>());
            b.extend_from_slice(&[0; 8]);
            let mut put = |s: &str| {
                b.extend_from_slice(&(s.len() as u64).to_le_bytes());
                b.extend_from_slice(s.as_bytes());
            };
            put(kind);
            for p in parts {
                put(p);
            }
            let n = b.len() as u64;
            b[..8].copy_from_slice(&n.to_le_bytes());
            let _ = f.write_all_at(&b, 0);
        }
    }
    pub fn observed(&mut self, w: &str, tag: &str, key: &str, events: usize, nontrivial: bool) {
        self.rec.evaluations += 1;
        self.rec.count(&format!("{}/{}", w, tag), 1);
        self.rec.events += events as u64;
        if nontrivial {
            let h = fnv(key.as_bytes());
            if self.rec.distinct.insert(h) {
                self.rec.sample(w, key);
            }
        }
    }

    /// Judge one document for the property of this run.
    pub fn doc(&mut self, w: &str, text: &str) {
        self.crumb("doc", &[text]);
        // where reads are watched, the text ends where its allocation ends
        let exact: Box<str>;
        let text = if self.prop == "C09" {
            exact = text.into();
            &*exact
        } else {
            text
        };
        let out = run_doc(text);
        self.doc_out(w, text, out)
    }
    pub fn doc_out(&mut self, w: &str, text: &str, out: Out) {
        let prop = self.prop.clone();
        let v = mon::eval_doc_out(&prop, &self.g, text, &out);
        let nontrivial = nontrivial(&prop, v.tag);
        self.observed(w, v.tag, text, v.events, nontrivial);
        if let Some(d) = v.violation {
            drop(out);
            let again = mon::eval_doc(&prop, &self.g, text).violation.is_some();
            let small = if again { self.shrink_text(text, |c, t| mon::eval_doc(&prop, &c.g, t).violation.is_some()) } else { text.to_string() };
            let d2 = mon::eval_doc(&prop, &self.g, &small).violation.unwrap_or(d);
            let note = if again { "" } else { " (seen once in this run; depends on the parses before it)" };
            self.rec.violation(w, "doc", &[&small], &format!("{}{}", d2, note));
        }
    }
    pub fn entry(&mut self, w: &str, e: &Entry, core: &str, follow: &str) {
        self.crumb("entry", &[e.name, core, follow]);
        let prop = self.prop.clone();
        let v = mon::eval_entry(&prop, &self.g, e, core, follow);
        let nontrivial = v.tag != "skip" && v.tag != "not-strict";
        let key = format!("{} <- {}{}", e.name, core, follow);
        self.observed(w, v.tag, &key, v.events, nontrivial);
        if let Some(d) = v.violation {
            let small = self.shrink_text(core, |c, t| mon::eval_entry(&prop, &c.g, e, t, follow).violation.is_some());
            let d2 = mon::eval_entry(&prop, &self.g, e, &small, follow).violation.unwrap_or(d);
            self.rec.violation(w, "entry", &[e.name, &small, follow], &d2);
        }
    }
    pub fn shrink_text(&self, text: &str, bad: impl Fn(&Ctx, &str) -> bool) -> String {
        let mut cur = text.to_string();
        let mut evals = 0;
        let t0 = std::time::Instant::now();
        let bad = |c: &Ctx, t: &str| t0.elapsed().as_secs() < 15 && bad(c, t);
        // token ranges first (whole stretches of text including trivia), then single characters
        loop {
            let n = lex(&cur).len();
            let mut size = (n / 2).max(1);
            let mut progress = false;
            while size >= 1 && n > 0 {
                let mut i = 0;
                loop {
                    let toks = lex(&cur);
                    if i >= toks.len() {
                        break;
                    }
                    let a = toks[i].off;
                    let b = if i + size < toks.len() { toks[i + size].off } else { cur.len() };
                    let cand = format!("{}{}", &cur[..a], &cur[b..]);
                    evals += 1;
                    if evals > 3000 || t0.elapsed().as_secs() >= 15 {
                        return cur;
                    }
                    if cand.len() < cur.len() && bad(self, &cand) {
                        cur = cand;
                        progress = true;
                    } else {
                        i += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            if !progress {
                break;
            }
        }
        if cur.len() < 400 {
            let mut i = 0;
            while i < cur.len() {
                let l = cur[i..].chars().next().unwrap().len_utf8();
                let cand = format!("{}{}", &cur[..i], &cur[i + l..]);
                evals += 1;
                if evals > 5000 || t0.elapsed().as_secs() >= 15 {
                    return cur;
                }
                if bad(self, &cand) {
                    cur = cand;
                } else {
                    i += l;
                }
            }
        }
        cur
    }
}

fn nontrivial(prop: &str, tag: &str) -> bool {
    match prop {
        "C07" => tag == "accepted",
        "C08" => tag == "outside-refused" || tag == "inside-accepted",
        "C09" => true,
        "C16" => tag == "accepted" || tag == "exact" || tag == "refused",
        _ => tag == "strict-accepted" || tag == "lenient-accepted" || tag == "outside-refused",
    }
}

pub fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    install_panic_hook();
    // every workload runs on one big stack, so that nesting depth is bounded by the workloads and not by the harness
    let stack = opt(&args, "--stack").and_then(|s| s.parse::<usize>().ok()).unwrap_or(1 << 30);
    let h = std::thread::Builder::new().stack_size(stack).spawn(move || real_main(args)).expect("thread");
    let rc = h.join().unwrap_or(3);
    let _ = std::io::stdout().flush();
    std::process::exit(rc);
}

fn make(args: &[String]) -> Ctx {
    let src = opt(args, "--src").unwrap_or("/repo/src".into());
    let num = |k: &str, d: u64| opt(args, k).and_then(|s| s.parse().ok()).unwrap_or(d);
    Ctx {
        g: Grammar::load(),
        pool: Pool::new(Some(&src)),
        entries: entries(),
        prop: opt(args, "--prop").unwrap_or("C01".into()),
        thorough: opt(args, "--tier").map_or(false, |t| t == "thorough"),
        seed: num("--seed", 1),
        shard: num("--shard", 0) as usize,
        nshards: num("--nshards", 1) as usize,
        rec: Rec::default(),
        start: Instant::now(),
        deadline: Duration::from_secs(num("--secs", 60)),
        idx: 0,
        crumb: opt(args, "--crumb").and_then(|p| std::fs::File::create(p).ok()),
        src_dir: src,
        texts: opt(args, "--texts"),
        kept: opt(args, "--guide").and_then(|f| std::fs::read_to_string(f).ok()).map_or(vec![], |t| t.split('\u{1}').map(|s| s.to_string()).filter(|s| s.len() < 2000).collect()),
        tests_dir: opt(args, "--tests").unwrap_or("/repo/tests".into()),
    }
}

fn real_main(args: Vec<String>) -> i32 {
    let cmd = args.first().cloned().unwrap_or_default();
    let mut c = make(&args);
    crate::steps::reset(opt(&args, "--budget").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX));
    match cmd.as_str() {
        "run" => {
            crate::work::run(&mut c);
            c.rec.max("parser-edges-hit", crate::steps::edges_hit() as u64);
            c.rec.max("parser-edges-total", crate::steps::GUARDS.load(std::sync::atomic::Ordering::Relaxed) as u64);
            let j = c.rec.json();
            match opt(&args, "--out") {
                Some(p) => std::fs::write(p, j).expect("write"),
                None => println!("{}", j),
            }
            0
        }
        "replay" => crate::work::replay(&mut c, &args),
        "known" => {
            crate::c15::known();
            0
        }
        "hist-texts" => {
            crate::c14::hist_texts(&opt(&args, "--file").unwrap());
            0
        }
        "guide-texts" => {
            crate::guided::write(&mut c, &opt(&args, "--file").unwrap());
            0
        }
        "once" => {
            crate::c15::once(&opt(&args, "--file").unwrap());
            0
        }
        "family" => {
            crate::c15::write_family(&opt(&args, "--name").unwrap(), opt(&args, "--n").unwrap().parse().unwrap(), &opt(&args, "--file").unwrap());
            0
        }
        "deep" => crate::props::deep(&opt(&args, "--name").unwrap(), opt(&args, "--n").unwrap().parse().unwrap()),
        "control" => control(&opt(&args, "--what").unwrap()),
        "show" => {
            let f = opt(&args, "--file").unwrap();
            let t = std::fs::read_to_string(f).unwrap();
            let o = run_doc(&t);
            println!("{}", o.brief());
            if let Out::Ok(_, e) = &o {
                println!("{}", crate::ev::show(e));
            }
            0
        }
        _ => {
            eprintln!("usage: wmon run|replay|show ...");
            2
        }
    }
}

/// deliberate faults of the harness itself: a sanitizer that does not report them is not watching
fn control(what: &str) -> i32 {
    match what {
        "race" => {
            static mut X: u64 = 0;
            let h: Vec<_> = (0..4)
                .map(|i| {
                    std::thread::spawn(move || {
                        for k in 0..2000u64 {
                            unsafe { std::ptr::write_volatile(&raw mut X, std::ptr::read_volatile(&raw const X) + k * i) }
                        }
                    })
                })
                .collect();
            for x in h {
                let _ = x.join();
            }
        }
        "overread" => {
            let b: Box<str> = "interface".into();
            let p = b.as_ptr();
            let n = std::hint::black_box(b.len());
            println!("{}", unsafe { std::ptr::read_volatile(p.add(n)) });
        }
        _ => return 2,
    }
    println!("control ran to its end");
    0
}
