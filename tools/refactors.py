#!/usr/bin/env python3
"""Development tool (not used by any check): rewrites of /repo that keep its behaviour; every check has to stay quiet on them.
  refactors.py [NAME...] [Cxx...]     apply each to /repo, run the checks, undo"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = {}

R["sp-loop"] = [("whitespace.rs", '''    recognize!(
        input,
        many0!(alt!(
            // ignores line comments
            do_parse!(tag!("//") >> take_while!(|c| c != '\\n') >> opt!(char!('\\n')) >> (()))
            |
            // ignores whitespace
            map!(take_while1!(|c| c == '\\t' || c == '\\n' || c == '\\r' || c == ' '), |_| ())
            |
            // ignores block comments
            do_parse!(tag!("/*") >> take_until!("*/") >> tag!("*/") >> (()))
        ))
    )
}''', '''    let mut rest = input;
    loop {
        let next = rest.trim_start_matches(|c| matches!(c, '\\t' | '\\n' | '\\r' | ' '));
        let next = if let Some(body) = next.strip_prefix("//") {
            body.find('\\n').map_or(&body[body.len()..], |end| &body[end + 1..])
        } else if let Some(body) = next.strip_prefix("/*") {
            match body.find("*/") {
                Some(end) => &body[end + 2..],
                None => next,
            }
        } else {
            next
        };
        if next.len() == rest.len() {
            break;
        }
        rest = next;
    }
    let skipped = input.len() - rest.len();
    Ok((rest, &input[..skipped]))
}''')]

R["lists-by-hand"] = [("common.rs", "parser!(many0!(weedle!(T)));", '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        let mut items = Vec::new();
        let mut rest = input;
        loop {
            match T::parse(rest) {
                Ok((next, item)) => {
                    // an item that takes nothing would repeat forever
                    if next.len() == rest.len() {
                        return Err(crate::Err::Error((rest, crate::ErrorKind::Many0)));
                    }
                    items.push(item);
                    rest = next;
                }
                Err(crate::Err::Error(_)) => return Ok((rest, items)),
                Err(e) => return Err(e),
            }
        }
    }'''),
 ("common.rs", "list: Vec<T> = separated_list!(weedle!(S), weedle!(T)),", "list: Vec<T> = separated!(T, S, false),"),
 ("common.rs", '''list: Vec<T> = terminated!(
            separated_nonempty_list!(weedle!(S), weedle!(T)),
            opt!(weedle!(S))
        ),''', '''list: Vec<T> = terminated!(
            separated!(T, S, true),
            opt!(weedle!(S))
        ),'''),
 ("common.rs", "ast_types! {", '''macro_rules! separated {
    ($i:expr, $t:ty, $s:ty, $nonempty:expr) => {
        separated::<$t, $s>($i, $nonempty)
    };
}

fn separated<'a, T: Parse<'a>, S: Parse<'a>>(
    input: &'a str,
    nonempty: bool,
) -> crate::IResult<&'a str, Vec<T>> {
    let mut list = Vec::with_capacity(4);
    let (mut rest, first) = match T::parse(input) {
        Ok(x) => x,
        Err(crate::Err::Error(_)) if !nonempty => return Ok((input, list)),
        Err(e) => return Err(e),
    };
    list.push(first);
    while let Ok((after, _)) = S::parse(rest) {
        match T::parse(after) {
            Ok((next, item)) => {
                list.push(item);
                rest = next;
            }
            Err(_) => break,
        }
    }
    Ok((rest, list))
}

ast_types! {'''),
 ("lib.rs", '''    do_parse,
    map,
    many0,
    opt,
    recognize,
    separated_list,
    separated_nonempty_list,
    terminated''', '''    do_parse,
    map,
    many0,
    opt,
    recognize,
    terminated''')]

R["words-by-hand"] = [("term.rs", '''            match tag!($i, $tok) {
                Err(e) => Err(e),
                Ok((i, o)) => {
                    use nom::{character::is_alphanumeric, Err as NomErr, error::ErrorKind};
                    let mut res = Ok((i, o));
                    if let Some(&c) = i.as_bytes().first() {
                        if is_alphanumeric(c) || c == b'_' || c == b'-' {
                            res = Err(NomErr::Error(($i, ErrorKind::Tag)));
                        }
                    }
                    res
                },
            }''', '''            match $i.strip_prefix($tok) {
                Some(rest) if !continues_word(rest) => Ok((rest, &$i[..$tok.len()])),
                _ => Err(nom::Err::Error(($i, nom::error::ErrorKind::Tag))),
            }'''),
 ("term.rs", "macro_rules! generate_terms_for_names {", '''fn continues_word(rest: &str) -> bool {
    matches!(rest.chars().next(), Some(c) if c.is_ascii_alphanumeric() || c == '_' || c == '-')
}

macro_rules! generate_terms_for_names {'''),
 ("common.rs", '''        &'a str = ws!(do_parse!(
            opt!(char!('_')) >>
            id: recognize!(do_parse!(
                take_while1!(|c: char| c.is_ascii_alphabetic()) >>
                take_while!(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-') >>
                (())
            )) >>
            (id)
        )),''', '''        &'a str = ws!(word!()),'''),
 ("common.rs", "ast_types! {", '''macro_rules! word {
    ($i:expr,) => {
        word($i)
    };
}

fn word(input: &str) -> crate::IResult<&str, &str> {
    let name = input.strip_prefix('_').unwrap_or(input);
    let bytes = name.as_bytes();
    if bytes.is_empty() || !bytes[0].is_ascii_alphabetic() {
        return Err(crate::Err::Error((name, crate::ErrorKind::Alpha)));
    }
    let mut end = 1;
    while end < bytes.len() && (bytes[end].is_ascii_alphanumeric() || bytes[end] == b'_' || bytes[end] == b'-') {
        end += 1;
    }
    Ok((&name[end..], &name[..end]))
}

ast_types! {''')]

R["literals-by-hand"] = [("literal.rs", '''        &'a str = ws!(do_parse!(
            char!('"') >>
            s: take_while!(|c| c != '"') >>
            char!('"') >>
            (s)
        )),''', '''        &'a str = ws!(quoted!()),'''),
 ("literal.rs", '''            &'a str = ws!(recognize!(do_parse!(
                opt!(char!('-')) >>
                one_of!("123456789") >>
                take_while!(|c: char| c.is_ascii_digit()) >>
                (())
            ))),''', '''            &'a str = ws!(decimal!()),'''),
 ("literal.rs", "ast_types! {", '''macro_rules! quoted {
    ($i:expr,) => {
        quoted($i)
    };
}
macro_rules! decimal {
    ($i:expr,) => {
        decimal($i)
    };
}

fn quoted(input: &str) -> crate::IResult<&str, &str> {
    if let Some(body) = input.strip_prefix('"') {
        if let Some(end) = body.find('"') {
            let (text, rest) = body.split_at(end);
            return Ok((&rest[1..], text));
        }
    }
    Err(crate::Err::Error((input, crate::ErrorKind::Char)))
}

fn decimal(input: &str) -> crate::IResult<&str, &str> {
    let digits = input.strip_prefix('-').unwrap_or(input);
    let n = digits.bytes().take_while(u8::is_ascii_digit).count();
    if n == 0 || digits.starts_with('0') {
        return Err(crate::Err::Error((input, crate::ErrorKind::OneOf)));
    }
    let end = input.len() - digits.len() + n;
    Ok((&input[end..], &input[..end]))
}

ast_types! {'''),
 ("literal.rs", '''        Float(FloatLit<'a>),
        Integer(IntegerLit<'a>),
        Null(term!(null)),
        String(StringLit<'a>),
    }''', '''        String(StringLit<'a>),
        Null(term!(null)),
        Float(FloatLit<'a>),
        Integer(IntegerLit<'a>),
    }''')]

R["parse-restructured"] = [("lib.rs", '''    let (remaining, parsed) = Definitions::parse(raw)?;
    // A document without any definition may still hold whitespace & comments
    let (remaining, _) = whitespace::sp(remaining)?;
    if !remaining.is_empty() {
        // There is redundant raw data after parsing
        return Err(Err::Error((remaining, ErrorKind::Eof)));
    }
    Ok(parsed)''', '''    let mut definitions = Definitions::with_capacity(16);
    let (mut remaining, _) = whitespace::sp(raw)?;
    while !remaining.is_empty() {
        match Definition::parse(remaining) {
            Ok((rest, definition)) => {
                definitions.push(definition);
                remaining = rest;
            }
            Err(Err::Error((_, kind))) => return Err(Err::Error((remaining, kind))),
            Err(e) => return Err(e),
        }
    }
    definitions.shrink_to_fit();
    Ok(definitions)''')]

R["counters"] = [("term.rs", '''                parser!(do_parse!(
                    ws!(ident_tag!($tok)) >>
                    ($typ)
                ));''', '''                fn parse(input: &'a str) -> $crate::IResult<&'a str, Self> {
                    static TRIED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
                    TRIED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    debug_assert!(!$tok.is_empty());
                    do_parse!(input,
                        ws!(ident_tag!($tok)) >>
                        ($typ)
                    )
                }'''),
 ("common.rs", "parser!(opt!(weedle!(T)));", '''fn parse(input: &'a str) -> crate::IResult<&'a str, Self> {
        match T::parse(input) {
            Ok((rest, value)) => Ok((rest, Some(value))),
            Err(crate::Err::Error(_)) => Ok((input, None)),
            Err(other) => Err(other),
        }
    }''')]

def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def apply(names):
    for n in names:
        for f, old, new in R[n]:
            p = "/repo/src/" + f
            t = open(p).read()
            if old not in t:
                raise SystemExit("%s: not found in %s: %r" % (n, f, old[:60]))
            open(p, "w").write(t.replace(old, new, 1))

if __name__ == "__main__":
    a = sys.argv[1:]
    props = [x for x in a if x[0] == "C" and x[1:].isdigit()] or ["C%02d" % i for i in range(1, 18)]
    names = [x for x in a if x in R] or list(R)
    groups = [names] if "together" in a else [[n] for n in names]
    for g in groups:
        try:
            apply(g)
            t = sh("cargo test --workspace --offline --target-dir /tmp/w/reftest 2>&1 | grep -E '^error|FAILED|panicked|test result: F|^warning: unused' | head", shell=True, cwd="/repo")
            print(g, "tests:", t.stdout.strip() or "ok", flush=True)
            for q in props:
                r = sh(["python3", V + "/check.py", q, "quick"], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                print("  ", q, r.returncode, "" if r.returncode == 0 else r.stdout[-1500:], r.stdout.strip().splitlines()[-1][-60:], flush=True)
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
