//! Reference lexer for the documented WebIDL tokens, written from the documented token patterns and
//! sharing no code with the parser under test.

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cls {
    Word,
    /// `-Infinity`
    NegInf,
    Dec,
    Hex,
    Oct,
    Float,
    Str,
    Punct,
    Junk,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok<'a> {
    pub cls: Cls,
    /// raw text of the token, quotes and leading underscore included
    pub text: &'a str,
    pub off: usize,
}

pub fn is_word_cont(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'-'
}

/// Position after the whitespace and comments that start at `pos`.
pub fn skip_trivia(s: &str, mut pos: usize) -> usize {
    let b = s.as_bytes();
    loop {
        if pos >= b.len() {
            return pos;
        }
        match b[pos] {
            b' ' | b'\t' | b'\n' | b'\r' => pos += 1,
            b'/' if b.get(pos + 1) == Some(&b'/') => {
                while pos < b.len() && b[pos] != b'\n' {
                    pos += 1;
                }
            }
            b'/' if b.get(pos + 1) == Some(&b'*') => {
                let mut p = pos + 2;
                loop {
                    if p + 1 >= b.len() {
                        return pos; // unterminated: not a comment
                    }
                    if b[p] == b'*' && b[p + 1] == b'/' {
                        break;
                    }
                    p += 1;
                }
                pos = p + 2;
            }
            _ => return pos,
        }
    }
}

fn digits(b: &[u8], mut p: usize) -> usize {
    while p < b.len() && b[p].is_ascii_digit() {
        p += 1;
    }
    p
}

/// End of the longest float `-?(([0-9]+\.[0-9]*|[0-9]*\.[0-9]+)([Ee][+-]?[0-9]+)?|[0-9]+[Ee][+-]?[0-9]+)` at `p0`.
pub fn float_end(b: &[u8], p0: usize) -> Option<usize> {
    let mut p = p0;
    if b.get(p) == Some(&b'-') {
        p += 1;
    }
    let i = digits(b, p);
    let exp = |q: usize| -> Option<usize> {
        if matches!(b.get(q), Some(b'e') | Some(b'E')) {
            let mut r = q + 1;
            if matches!(b.get(r), Some(b'+') | Some(b'-')) {
                r += 1;
            }
            let e = digits(b, r);
            if e > r {
                return Some(e);
            }
        }
        None
    };
    if b.get(i) == Some(&b'.') {
        let f = digits(b, i + 1);
        if i > p || f > i + 1 {
            return Some(exp(f).unwrap_or(f));
        }
        return None;
    }
    if i > p {
        return exp(i);
    }
    None
}

/// End and class of the longest integer at `p0`.
pub fn int_end(b: &[u8], p0: usize) -> Option<(usize, Cls)> {
    let mut p = p0;
    if b.get(p) == Some(&b'-') {
        p += 1;
    }
    match b.get(p) {
        Some(b'1'..=b'9') => Some((digits(b, p), Cls::Dec)),
        Some(b'0') => {
            if matches!(b.get(p + 1), Some(b'x') | Some(b'X')) {
                let mut q = p + 2;
                while q < b.len() && b[q].is_ascii_hexdigit() {
                    q += 1;
                }
                if q > p + 2 {
                    return Some((q, Cls::Hex));
                }
            }
            let mut q = p + 1;
            while q < b.len() && (b'0'..=b'7').contains(&b[q]) {
                q += 1;
            }
            Some((q, Cls::Oct))
        }
        _ => None,
    }
}

pub fn word_end(b: &[u8], p0: usize) -> Option<usize> {
    let mut p = p0;
    if b.get(p) == Some(&b'_') {
        p += 1;
    }
    if p < b.len() && b[p].is_ascii_alphabetic() {
        while p < b.len() && is_word_cont(b[p]) {
            p += 1;
        }
        Some(p)
    } else {
        None
    }
}

pub const PUNCTS: &[&str] = &[
    "...", "(", ")", "[", "]", "{", "}", ",", "-", ".", ":", ";", "<", "=", ">", "?", "*",
];

pub fn next_tok(s: &str, pos: usize) -> Option<Tok<'_>> {
    let pos = skip_trivia(s, pos);
    let b = s.as_bytes();
    if pos >= b.len() {
        return None;
    }
    let mk = |cls, end: usize| Some(Tok { cls, text: &s[pos..end], off: pos });
    if let Some(e) = word_end(b, pos) {
        return mk(Cls::Word, e);
    }
    if b[pos] == b'"' {
        if let Some(i) = s[pos + 1..].find('"') {
            return mk(Cls::Str, pos + 1 + i + 1);
        }
        return mk(Cls::Junk, pos + 1);
    }
    if s[pos..].starts_with("-Infinity") && !b.get(pos + 9).map_or(false, |&c| is_word_cont(c)) {
        return mk(Cls::NegInf, pos + 9);
    }
    let f = float_end(b, pos);
    let i = int_end(b, pos);
    match (f, i) {
        (Some(fe), Some((ie, c))) => {
            if fe > ie {
                return mk(Cls::Float, fe);
            }
            return mk(c, ie);
        }
        (Some(fe), None) => return mk(Cls::Float, fe),
        (None, Some((ie, c))) => return mk(c, ie),
        _ => {}
    }
    for p in PUNCTS {
        if s[pos..].starts_with(p) {
            return mk(Cls::Punct, pos + p.len());
        }
    }
    let l = s[pos..].chars().next().unwrap().len_utf8();
    mk(Cls::Junk, pos + l)
}

pub fn lex(s: &str) -> Vec<Tok<'_>> {
    let mut out = Vec::new();
    let mut pos = 0;
    while let Some(t) = next_tok(s, pos) {
        pos = t.off + t.text.len();
        out.push(t);
    }
    out
}

/// The reported text of a name: exactly one leading underscore removed.
pub fn unescape(w: &str) -> &str {
    w.strip_prefix('_').unwrap_or(w)
}
