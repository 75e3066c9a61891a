//! The monitors: oracles over one observed execution (input, outcome).
use crate::entries::{clip, run_doc, Entry, Out, EK};
use crate::ev::{diff, show, subtree_end, Ev, K};
use crate::grammar::{lenient_parse, loose_ok, strict_parse, Grammar, Strict};
use crate::lex::{lex, skip_trivia, unescape, Cls, Tok};

pub enum Zone<'t> {
    /// in the strict language: must be accepted with exactly this trace
    Strict(Vec<Ev<'t>>),
    /// derivable only when keywords serve as names and the like: no verdict on acceptance
    Gray,
    /// not derivable at all: must be refused
    Outside,
}

pub fn zone<'t>(g: &Grammar, rule: usize, toks: &[Tok<'t>]) -> Zone<'t> {
    if let Some(e) = strict_parse(g, rule, toks) {
        return Zone::Strict(e);
    }
    if toks.iter().any(|t| t.cls == Cls::Junk) {
        return Zone::Outside;
    }
    if toks.len() > 3000 {
        return Zone::Gray; // the loose recogniser is for small texts; no verdict
    }
    if loose_ok(g, rule, toks) {
        Zone::Gray
    } else {
        Zone::Outside
    }
}

// ---------------------------------------------------------------- projections of a trace onto a property's subject

fn is_type_node(n: &str) -> bool {
    n == "AttributedType" || n.starts_with("Type::") || n.starts_with("ReturnType::") || n.starts_with("ConstType::")
}
fn has_arglist(n: &str) -> bool {
    matches!(
        n,
        "CallbackDefinition" | "ConstructorInterfaceMember" | "OperationInterfaceMember" | "OperationMixinMember" | "OperationNamespaceMember"
            | "SingleTypedAsyncIterable" | "DoubleTypedAsyncIterable" | "ExtendedAttributeArgList" | "ExtendedAttributeNamedArgList"
    )
}
/// nodes whose first part is the attribute slot
fn has_attr_slot(n: &str) -> bool {
    n.ends_with("Definition") || n.ends_with("Member") && !n.contains("::") || n.ends_with("Iterable") && !n.contains("::")
        || matches!(n, "SingleArgument" | "VariadicArgument" | "AttributedType" | "AttributedNonAnyType")
}

#[derive(Debug, PartialEq, Eq)]
pub struct Proj<'a>(pub Vec<(&'static str, Vec<Ev<'a>>)>);

pub fn project<'a>(prop: &str, evs: &[Ev<'a>]) -> Proj<'a> {
    let mut out = Vec::new();
    match prop {
        "C03" => {
            let mut i = 0;
            while i < evs.len() {
                if let Ev::Open(n) = evs[i] {
                    if is_type_node(n) {
                        let e = subtree_end(evs, i);
                        out.push(("type", evs[i..e].to_vec()));
                        i = e;
                        continue;
                    }
                }
                i += 1;
            }
        }
        "C04" => {
            let mut i = 0;
            while i < evs.len() {
                match evs[i] {
                    Ev::Open(n) if n == "Default" || n.starts_with("ConstValue::") || n.starts_with("DefaultValue::") || n.starts_with("IntegerLit::") || n.starts_with("FloatLit::") => {
                        let e = subtree_end(evs, i);
                        out.push(("literal", evs[i..e].to_vec()));
                        i = e;
                    }
                    Ev::Tok(K::Str, _) | Ev::Tok(K::Dec, _) | Ev::Tok(K::Hex, _) | Ev::Tok(K::Oct, _) | Ev::Tok(K::Float, _) => {
                        out.push(("token", vec![evs[i]]));
                        i += 1;
                    }
                    _ => i += 1,
                }
            }
        }
        "C05" => {
            for i in 0..evs.len() {
                if let Ev::Open(n) = evs[i] {
                    if has_attr_slot(n) && i + 1 < evs.len() {
                        let e = subtree_end(evs, i + 1);
                        out.push((n, evs[i + 1..e].to_vec()));
                    } else if n.starts_with("ExtendedAttribute::") {
                        let e = subtree_end(evs, i);
                        out.push((n, evs[i..e].to_vec()));
                    }
                }
            }
        }
        "C06" => {
            // direct Parenthesized (or Absent) child of the nodes that carry argument lists
            let mut stack: Vec<&'static str> = Vec::new();
            for i in 0..evs.len() {
                match evs[i] {
                    Ev::Open(n) => {
                        if n == "Parenthesized" && stack.last().map_or(false, |p| has_arglist(p)) {
                            let e = subtree_end(evs, i);
                            out.push((stack.last().unwrap(), evs[i..e].to_vec()));
                        }
                        if stack.is_empty() && (n == "SingleArgument" || n == "VariadicArgument" || n.starts_with("Argument::") || n == "List") {
                            out.push(("arg", evs[i..subtree_end(evs, i)].to_vec()));
                        }
                        stack.push(n);
                    }
                    Ev::Close => {
                        stack.pop();
                    }
                    _ => {}
                }
            }
        }
        "C02" => {
            let mut v = Vec::new();
            let mut i = 0;
            let mut stack: Vec<&'static str> = Vec::new();
            while i < evs.len() {
                match evs[i] {
                    Ev::Open(n) => {
                        let parent = stack.last().copied().unwrap_or("");
                        let opaque = is_type_node(n)
                            || n == "Default"
                            || n.starts_with("ConstValue::")
                            || (n == "Parenthesized" && has_arglist(parent));
                        if opaque {
                            v.push(Ev::Open(if n == "Parenthesized" { "ARGS" } else if n == "Default" { "DEFAULT" } else if is_type_node(n) { "TYPE" } else { "VALUE" }));
                            v.push(Ev::Close);
                            i = subtree_end(evs, i);
                            continue;
                        }
                        v.push(evs[i]);
                        stack.push(n);
                        if has_attr_slot(n) && i + 1 < evs.len() {
                            i = subtree_end(evs, i + 1);
                            continue;
                        }
                    }
                    Ev::Close => {
                        stack.pop();
                        v.push(evs[i]);
                    }
                    _ => v.push(evs[i]),
                }
                i += 1;
            }
            out.push(("skeleton", v));
        }
        "C01" => {
            // number and order of the definitions: per definition the names that stand directly in it
            let mut d = 0;
            let mut names = Vec::new();
            for e in evs {
                match e {
                    Ev::Open(_) => d += 1,
                    Ev::Close => {
                        d -= 1;
                        if d == 1 {
                            out.push(("definition", std::mem::take(&mut names)));
                        }
                    }
                    Ev::Tok(K::Ident, _) if d == 3 => names.push(*e),
                    _ => {}
                }
            }
        }
        _ => out.push(("all", evs.to_vec())),
    }
    Proj(out)
}

pub fn proj_diff(e: &Proj, a: &Proj) -> String {
    if e.0.len() != a.0.len() {
        let mut i = 0;
        while i < e.0.len() && i < a.0.len() && e.0[i] == a.0[i] {
            i += 1;
        }
        return format!(
            "{} items expected, {} reported; first difference at item {}: expected {} | reported {}",
            e.0.len(),
            a.0.len(),
            i,
            e.0.get(i).map_or("-".into(), |x| format!("{} {}", x.0, clip(&show(&x.1)))),
            a.0.get(i).map_or("-".into(), |x| format!("{} {}", x.0, clip(&show(&x.1))))
        );
    }
    for i in 0..e.0.len() {
        if e.0[i] != a.0[i] {
            return format!("item {} ({} / {}): {}", i, e.0[i].0, a.0[i].0, diff(&e.0[i].1, &a.0[i].1));
        }
    }
    "no difference".into()
}

// ---------------------------------------------------------------- conservation

/// Tokens of the accepted text must be exactly the tokens of the trace.
pub fn conserve(consumed: &str, evs: &[Ev], trailing_comma_at_end: bool) -> Result<usize, String> {
    let toks = lex(consumed);
    let mut i = 0;
    let mut n = 0;
    let skip_trailing = |i: usize| -> bool {
        toks[i].text == ","
            && match toks.get(i + 1) {
                Some(t) => t.text == "}" && t.cls == Cls::Punct,
                None => trailing_comma_at_end,
            }
    };
    for e in evs {
        let (k, t) = match e {
            Ev::Tok(k, t) => (*k, *t),
            Ev::Sep(s) => (if *s == "or" { K::Kw } else { K::Punct }, *s),
            _ => continue,
        };
        while i < toks.len() && skip_trailing(i) && !(k == K::Punct && t == ",") {
            i += 1;
        }
        let Some(x) = toks.get(i) else {
            return Err(format!("result holds {:?} {:?} that the accepted text does not (text has {} tokens)", k, clip(t), toks.len()));
        };
        let ok = match k {
            K::Kw => x.text == t && matches!(x.cls, Cls::Word | Cls::NegInf),
            K::Punct => x.text == t && x.cls == Cls::Punct,
            K::Ident => x.cls == Cls::Word && unescape(x.text) == t,
            K::Str => x.cls == Cls::Str && &x.text[1..x.text.len() - 1] == t,
            K::Dec => x.cls == Cls::Dec && x.text == t,
            K::Hex => x.cls == Cls::Hex && x.text == t,
            K::Oct => x.cls == Cls::Oct && x.text == t,
            K::Float => x.cls == Cls::Float && x.text == t,
        };
        if !ok {
            return Err(format!("token {} of the accepted text is {:?} {:?} but the result holds {:?} {:?}", i, x.cls, clip(x.text), k, clip(t)));
        }
        i += 1;
        n += 1;
    }
    while i < toks.len() && skip_trailing(i) {
        i += 1;
    }
    if i != toks.len() {
        return Err(format!("token {} {:?} of the accepted text is missing from the result", i, clip(toks[i].text)));
    }
    Ok(n)
}

// ---------------------------------------------------------------- slices

pub fn offset_in(text: &str, s: &str) -> Option<usize> {
    let a = text.as_ptr() as usize;
    let b = s.as_ptr() as usize;
    if b >= a && b + s.len() <= a + text.len() {
        Some(b - a)
    } else {
        None
    }
}
pub fn is_suffix(text: &str, s: &str) -> bool {
    offset_in(text, s).map_or(false, |o| o + s.len() == text.len())
}
/// every slice inside the text, on char boundaries, in order, disjoint
pub fn slices_ok(text: &str, evs: &[Ev]) -> Result<usize, String> {
    let mut last = 0usize;
    let mut n = 0;
    for e in evs {
        if let Ev::Tok(k, t) = e {
            if matches!(k, K::Kw | K::Punct) {
                continue;
            }
            match offset_in(text, t) {
                None => return Err(format!("{:?} {:?} is not a slice of the caller's text", k, clip(t))),
                Some(o) => {
                    if o < last {
                        return Err(format!("{:?} {:?} at offset {} overlaps or precedes the previous text ending at {}", k, clip(t), o, last));
                    }
                    if !text.is_char_boundary(o) || !text.is_char_boundary(o + t.len()) || std::str::from_utf8(t.as_bytes()).is_err() {
                        return Err(format!("slice at {} not on a character boundary", o));
                    }
                    last = o + t.len();
                    n += 1;
                }
            }
        }
    }
    Ok(n)
}
/// same trace, and every text at the very place it was written
pub fn slices_exact(exp: &[Ev], act: &[Ev]) -> Result<(), String> {
    for (a, b) in exp.iter().zip(act) {
        if let (Ev::Tok(k, x), Ev::Tok(_, y)) = (a, b) {
            if !matches!(k, K::Kw | K::Punct) && x == y && (x.as_ptr() != y.as_ptr()) {
                return Err(format!("{:?} {:?} reported from another place than where it was written", k, clip(y)));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- whole-document verdicts

pub struct Verdict {
    pub violation: Option<String>,
    /// what the observation was, for the evidence counters
    pub tag: &'static str,
    pub events: usize,
}
fn v(tag: &'static str, violation: Option<String>, events: usize) -> Verdict {
    Verdict { violation, tag, events }
}

pub fn eval_doc(prop: &str, g: &Grammar, text: &str) -> Verdict {
    let out = run_doc(text);
    eval_doc_out(prop, g, text, &out)
}

pub fn eval_doc_out(prop: &str, g: &Grammar, text: &str, out: &Out) -> Verdict {
    let toks = lex(text);
    let defs = g.rule("Definitions");
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C10" | "C11" => {
            let exp = match strict_parse(g, defs, &toks) {
                Some(e) => e,
                None => {
                    // C04/C06/C10/C11 also say what must not be taken for a literal, default, comment, word
                    if matches!(prop, "C04" | "C06" | "C10" | "C11") {
                        if let Zone::Outside = zone(g, defs, &toks) {
                            return match out {
                                Out::Ok(_, e) => v("outside-accepted", Some(format!("text outside the grammar accepted as {}", clip(&show(e)))), e.len()),
                                Out::Panic(m) => v("panic", Some(format!("panic: {}", m)), 0),
                                _ => v("outside-refused", None, 0),
                            };
                        }
                    }
                    // not promised to be accepted, but there is only one way to report it
                    if let (true, Out::Ok(_, act)) = (matches!(prop, "C02" | "C03" | "C05" | "C06"), out) {
                        if let Some(exp) = lenient_parse(g, defs, &toks) {
                            let (pe, pa) = (project(prop, &exp), project(prop, act));
                            if pe != pa {
                                return v("differs", Some(proj_diff(&pe, &pa)), act.len());
                            }
                            return v("lenient-accepted", None, act.len());
                        }
                    }
                    return v("not-strict", None, 0);
                }
            };
            match out {
                Out::Ok(_, act) => {
                    if &exp == act {
                        return v("strict-accepted", None, act.len());
                    }
                    if matches!(prop, "C10" | "C11") {
                        return v("differs", Some(diff(&exp, act)), act.len());
                    }
                    let (pe, pa) = (project(prop, &exp), project(prop, act));
                    if pe != pa {
                        return v("differs", Some(proj_diff(&pe, &pa)), act.len());
                    }
                    v("strict-accepted", None, act.len())
                }
                o => v("refused", Some(format!("valid document not accepted: {}", o.brief())), 0),
            }
        }
        "C07" => match out {
            Out::Ok(rest, act) => {
                let used = &text[..text.len() - rest.len()];
                match conserve(used, act, false) {
                    Err(m) => v("not-conserved", Some(m), act.len()),
                    Ok(n) => v("accepted", None, n),
                }
            }
            _ => v("refused", None, 0),
        },
        "C08" => {
            let z = zone(g, defs, &toks);
            match (z, out) {
                (_, Out::Panic(m)) => v("panic", Some(format!("panic instead of an error value: {}", m)), 0),
                (Zone::Outside, Out::Ok(_, e)) => v("outside-accepted", Some(format!("text outside the grammar accepted as {}", clip(&show(e)))), e.len()),
                (_, Out::Ok(_, e)) => v("inside-accepted", None, e.len()),
                (z, Out::Err(k, rest, kind)) => {
                    if *k != EK::Error {
                        return v("bad-error", Some(format!("error class {:?} {}", k, kind)), 0);
                    }
                    if !is_suffix(text, rest) {
                        return v("bad-error", Some(format!("error position {:?} is not the rest of the caller's text", clip(rest))), 0);
                    }
                    if rest.is_empty() {
                        return v("bad-error", Some("error with nothing left unparsed".into()), 0);
                    }
                    let off = text.len() - rest.len();
                    // everything before the error position is whole definitions
                    if toks.len() <= 3000 {
                        let pre: Vec<Tok> = toks.iter().filter(|t| t.off < off).copied().collect();
                        if skip_trivia(text, off) != off && !pre.is_empty() {
                            return v("bad-error", Some("error position is not at the start of a token".into()), 0);
                        }
                        if strict_parse(g, defs, &pre).is_none() && !loose_ok(g, defs, &pre) {
                            return v("bad-error", Some(format!("text before the error position {} is not a run of whole definitions", off)), 0);
                        }
                    }
                    // and no valid definition starts at the error position
                    let post: Vec<Tok> = toks.iter().filter(|t| t.off >= off).copied().collect();
                    let mut s = Strict::new(g, &post);
                    if let (Some(n), true) = (s.rule(g.rule("Definition"), 0), s.fuel > 0) {
                        return v("bad-error", Some(format!("error position {} is the start of a valid definition of {} tokens", off, n)), 0);
                    }
                    match z {
                        Zone::Outside => v("outside-refused", None, 1),
                        _ => v("inside-refused", None, 0),
                    }
                }
            }
        }
        "C09" => eval_sane(text, out),
        "C16" => match out {
            Out::Ok(rest, act) => {
                if !is_suffix(text, rest) {
                    return v("rest", Some("rest is not a suffix of the caller's text".into()), 0);
                }
                match slices_ok(text, act) {
                    Err(m) => v("slices", Some(m), 0),
                    Ok(n) => {
                        if let Some(exp) = strict_parse(g, defs, &toks) {
                            if exp == *act {
                                if let Err(m) = slices_exact(&exp, act) {
                                    return v("slices", Some(m), n);
                                }
                                return v("exact", None, n);
                            }
                        }
                        v("accepted", None, n)
                    }
                }
            }
            Out::Err(EK::Error, rest, _) | Out::Err(EK::Failure, rest, _) => {
                if !is_suffix(text, rest) {
                    return v("rest", Some(format!("error position {:?} is not a suffix of the caller's text", clip(rest))), 0);
                }
                v("refused", None, 0)
            }
            _ => v("other", None, 0),
        },
        _ => panic!("eval_doc: unknown property {}", prop),
    }
}

pub fn eval_sane(text: &str, out: &Out) -> Verdict {
    match out {
        Out::Panic(m) => v("panic", Some(format!("panic: {}", m)), 0),
        Out::Err(EK::Incomplete, _, k) => v("incomplete", Some(format!("complete text reported as incomplete: {}", k)), 0),
        Out::Err(EK::Failure, _, k) => v("failure", Some(format!("unrecoverable error class: {}", k)), 0),
        Out::Err(EK::Error, rest, _) => {
            if !is_suffix(text, rest) && offset_in(text, rest).is_none() {
                return v("rest", Some("error position outside the caller's text".into()), 0);
            }
            v("refused", None, 1)
        }
        Out::Ok(rest, evs) => {
            if !is_suffix(text, rest) {
                return v("rest", Some("rest outside the caller's text".into()), 0);
            }
            if let Err(m) = slices_ok(text, evs) {
                return v("slices", Some(m), 0);
            }
            v("accepted", None, evs.len())
        }
    }
}

/// Standalone element: `core` is the instance text, `follow` a text that cannot continue any element.
pub fn eval_entry(prop: &str, g: &Grammar, e: &Entry, core: &str, follow: &str) -> Verdict {
    // a line comment at the end of the instance must not swallow what follows it
    let open = !follow.is_empty() && lex(&format!("{}@", core)).len() != lex(core).len() + 1;
    let core: &str = &format!("{}{}", core, if open { "\n" } else { "" });
    let text = format!("{}{}", core, follow);
    let text: &str = &text;
    let out = (e.f)(text);
    let ct = lex(core);
    let rule = g.rule(e.rule);
    let tc = matches!(e.rule, "EnumValueList" | "W_EnumListIdent");
    match prop {
        "C12" | "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C16" | "C10" | "C11" => {
            // expected trace over the slices of the very text that was parsed
            let cut = &text[..core.len()];
            let toks = lex(cut);
            if toks.len() != ct.len() {
                return v("skip", None, 0);
            }
            let exp = match strict_parse(g, rule, &toks) {
                Some(x) => x,
                None => {
                    if prop == "C12" {
                        return eval_entry_any(g, e, text, &out);
                    }
                    if let (true, Out::Ok(rest, act)) = (matches!(prop, "C02" | "C03" | "C05" | "C06"), &out) {
                        if let (true, Some(exp)) = (rest.len() == text.len() - skip_trivia(text, core.len()), lenient_parse(g, rule, &toks)) {
                            let (pe, pa) = (project(prop, &exp), project(prop, act));
                            if pe != pa {
                                return v("differs", Some(format!("{}: {}", e.name, proj_diff(&pe, &pa))), act.len());
                            }
                            return v("lenient-accepted", None, act.len());
                        }
                    }
                    return v("not-strict", None, 0);
                }
            };
            let exp_rest = if toks.is_empty() { 0 } else { skip_trivia(text, core.len()) };
            match &out {
                Out::Ok(rest, act) => {
                    if prop == "C16" {
                        if !is_suffix(text, rest) {
                            return v("rest", Some("rest is not a suffix of the caller's text".into()), 0);
                        }
                        if let Err(m) = slices_ok(text, act) {
                            return v("slices", Some(m), 0);
                        }
                        if exp == *act {
                            if let Err(m) = slices_exact(&exp, act) {
                                return v("slices", Some(m), 0);
                            }
                        }
                        return v("exact", None, act.len());
                    }
                    if exp != *act {
                        if matches!(prop, "C12" | "C10" | "C11") {
                            return v("differs", Some(format!("{}: {}", e.name, diff(&exp, act))), act.len());
                        }
                        let (pe, pa) = (project(prop, &exp), project(prop, act));
                        if pe != pa {
                            return v("differs", Some(format!("{}: {}", e.name, proj_diff(&pe, &pa))), act.len());
                        }
                    }
                    if matches!(prop, "C12" | "C10" | "C11") && (!is_suffix(text, rest) || text.len() - rest.len() != exp_rest) {
                        return v("rest", Some(format!("{}: rest {:?}, expected {:?}", e.name, clip(rest), clip(&text[exp_rest..]))), 0);
                    }
                    v("strict-accepted", None, act.len())
                }
                o => {
                    if prop == "C16" {
                        return v("refused", None, 0);
                    }
                    v("refused", Some(format!("{}: valid instance not accepted: {}", e.name, o.brief())), 0)
                }
            }
        }
        "C07" => match &out {
            Out::Ok(rest, act) => {
                if !is_suffix(text, rest) {
                    return v("rest", Some(format!("{}: rest is not a suffix", e.name)), 0);
                }
                match conserve(&text[..text.len() - rest.len()], act, tc) {
                    Err(m) => v("not-conserved", Some(format!("{}: {}", e.name, m)), 0),
                    Ok(n) => v("accepted", None, n),
                }
            }
            _ => v("refused", None, 0),
        },
        "C09" => eval_sane(text, &out),
        _ => panic!("eval_entry: unknown property {}", prop),
    }
}

/// Any text at any element parser: what was consumed is derivable, the rest is the remaining text without trivia.
pub fn eval_entry_any(g: &Grammar, e: &Entry, text: &str, out: &Out) -> Verdict {
    let rule = g.rule(e.rule);
    match out {
        Out::Panic(m) => v("panic", Some(format!("{}: panic: {}", e.name, m)), 0),
        Out::Err(_, rest, k) => {
            if !k.contains("Size") && offset_in(text, rest).is_none() {
                return v("rest", Some(format!("{}: error position outside the caller's text", e.name)), 0);
            }
            v("any-refused", None, 0)
        }
        Out::Ok(rest, evs) => {
            if !is_suffix(text, rest) {
                return v("rest", Some(format!("{}: rest is not a suffix of the caller's text", e.name)), 0);
            }
            let off = text.len() - rest.len();
            let used = lex(&text[..off]);
            if !used.is_empty() && skip_trivia(text, off) != off {
                return v("rest", Some(format!("{}: rest starts with whitespace or a comment: {:?}", e.name, clip(rest))), 0);
            }
            if used.is_empty() && off != 0 && !evs.is_empty() && evs.iter().any(|x| matches!(x, Ev::Tok(..))) {
                return v("rest", Some(format!("{}: result from nothing", e.name)), 0);
            }
            if used.len() <= 1500 && strict_parse(g, rule, &used).is_none() && !loose_ok(g, rule, &used) {
                return v("underivable", Some(format!("{}: consumed text {:?} is no instance", e.name, clip(&text[..off]))), 0);
            }
            v("any-accepted", None, evs.len())
        }
    }
}
