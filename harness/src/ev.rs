//! The event trace of a parse result: the monitors' common language.
//! `dump.rs` turns a result of the parser under test into a trace, `grammar.rs` derives the trace that
//! the documented grammar prescribes for a token sequence.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    Kw,
    Punct,
    Ident,
    Str,
    Dec,
    Hex,
    Oct,
    Float,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ev<'a> {
    Open(&'static str),
    Close,
    Absent,
    Tok(K, &'a str),
    /// separator of a list (not represented by a field of its own)
    Sep(&'static str),
}

pub fn show(evs: &[Ev]) -> String {
    let mut s = String::new();
    for e in evs {
        match e {
            Ev::Open(n) => {
                s.push_str(n);
                s.push_str("{ ");
            }
            Ev::Close => s.push_str("} "),
            Ev::Absent => s.push_str("~ "),
            Ev::Tok(k, t) => {
                let t: String = if t.chars().count() > 80 { t.chars().take(80).chain("…".chars()).collect() } else { t.to_string() };
                s.push_str(&format!("{:?}:{:?} ", k, t));
            }
            Ev::Sep(x) => {
                s.push_str(x);
                s.push(' ');
            }
        }
    }
    s
}

/// A short description of where two traces part.
pub fn diff(exp: &[Ev], act: &[Ev]) -> String {
    let mut i = 0;
    while i < exp.len() && i < act.len() && exp[i] == act[i] {
        i += 1;
    }
    let lo = i.saturating_sub(6);
    let e = &exp[lo..exp.len().min(i + 10)];
    let a = &act[lo..act.len().min(i + 10)];
    format!("event {}: expected …{} | reported …{}", i, show(e), show(a))
}

/// End (exclusive) of the subtree that starts at `i`.
pub fn subtree_end(evs: &[Ev], i: usize) -> usize {
    match evs[i] {
        Ev::Open(_) => {
            let mut d = 0usize;
            let mut j = i;
            loop {
                match evs[j] {
                    Ev::Open(_) => d += 1,
                    Ev::Close => {
                        d -= 1;
                        if d == 0 {
                            return j + 1;
                        }
                    }
                    _ => {}
                }
                j += 1;
            }
        }
        _ => i + 1,
    }
}
